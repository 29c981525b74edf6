// One history run by the library built for release and for debugging (P36): dbg_ops.cpp is compiled for both.
#pragma once
#include <atomic>
#include <string>
#include <vector>

struct DbgOp { int kind, a, b, c; bool onSet, exported; };

struct DbgOut
{
    std::string text;                   // everything the operation returned
    std::string printed;                // what it wrote to the standard output
    bool mismatch = false;              // it was refused because of a wrong type
    std::string code, key, requested, saved;
    const char* fn = "";                // the function called
    int line = 0;                       // and the line calling it
    int place = 0;                      // 0: one report, 1: at least one, each of the call; 3: not the call's own report
};

const int DbgKinds = 32;
extern const char* const DbgKindName[DbgKinds];

std::vector<DbgOut> DbgReleaseRun(const std::vector<DbgOp>& ops, std::string (*take)(), const std::string& file);
std::vector<DbgOut> DbgDebugRun(const std::vector<DbgOp>& ops, std::string (*take)(), const std::string& file);
void DbgDebugFormat(bool reports);      // SetBackTraceFormat of the debug library
void DbgDebugNoise(std::atomic<bool>& stop);   // another thread that uses the debug library without mistakes
