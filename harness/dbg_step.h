// One operation; included by dbg_ops.cpp, for a function the program exports and for one it does not.
STEP(State& st, const DbgOp& o, DbgOut& out)
{
    Vault& v = *st.v;
    VaultRecordSet& set = st.set[o.a % 2];
    VaultRecordSet& other = st.set[(o.a + 1) % 2];
    VaultRecordRef& ref = st.ref[o.a % 2];
    const std::string key = Keys[o.a % 6];
    VaultOperationResult r;
    bool isResult = true;
    std::string& t = out.text;
    switch (o.kind)
    {
    case 0: AT("CreateRecord"); if (o.c % 3 == 0) r = v.CreateRecord(ref, { {"U", st.next++}, {"A", o.b} }); else if (o.c % 3 == 1) r = v.CreateRecord(ref, { {"U", st.next++}, {"A", o.b}, {"S", std::string("s")}, {key, std::string("text")} }); else r = v.CreateRecord(ref, { {key, 1.5} }); break;
    case 1: AT("CreateRecord"); if (o.c % 2) r = v.CreateRecord({ {"U", st.next++}, {key, o.b} }); else r = v.CreateRecord({ {"A", o.b}, {"U", st.next++} }); break;
    case 2: TYPED("SetData", ref, .SetData(key, V)); break;
    case 3:
        switch (o.c % 3)
        {
        case 0: { int x = -1; AT("GetData"); r = ref.GetData(key, x); t += std::to_string(x); break; }
        case 1: { std::string x; AT("GetData"); r = ref.GetData(key, x); t += x; break; }
        default: { double x = -1; AT("GetData"); r = ref.GetData(key, x); t += std::to_string(x); break; }
        }
        break;
    case 4: AT("SetData"); r = ref.SetData({ {"A", o.b}, {key, std::string("x")}, {"D", 2.5} }); break;
    case 5: AT("AddKey"); r.IsOperationSuccess = o.c % 3 == 0 ? v.AddKey(key, o.b) : o.c % 3 == 1 ? v.AddKey(key, std::string("d")) : v.AddKey(key, 0.5); break;
    case 6: AT("UpdateKey"); TYPED("UpdateKey", v, .UpdateKey(key, V)); break;
    case 7:
    {
        const Vault& base = v;
        switch (o.c % 3)
        {
        case 0: { int x = -1; AT("GetKeyValue"); r = o.onSet ? set.GetKeyValue(key, x) : base.GetKeyValue(key, x); t += std::to_string(x); break; }
        case 1: { std::string x; AT("GetKeyValue"); r = o.onSet ? set.GetKeyValue(key, x) : base.GetKeyValue(key, x); t += x; break; }
        default: { double x = -1; AT("GetKeyValue"); r = o.onSet ? set.GetKeyValue(key, x) : base.GetKeyValue(key, x); t += std::to_string(x); break; }
        }
        break;
    }
    case 8: r.IsOperationSuccess = v.RemoveKey(key == "U" ? "none" : key); break;
    case 9: { VaultRecordRef x; if (o.onSet) { TYPED("GetRecord", set, .GetRecord(key, V, x)); } else { TYPED("GetRecord", v, .GetRecord(key, V, x)); } t += x.IsValid() ? "found" : "-"; if (o.a % 6 == 3 && x.IsValid()) { ref = x; } break; }
    case 10: { std::vector<VaultRecordRef> x; if (o.onSet) { TYPED("GetRecords", set, .GetRecords(key, V, x)); } else { TYPED("GetRecords", v, .GetRecords(key, V, x)); } t += Refs(x); break; }
    case 11: if (o.onSet) { TYPED("RequestEqual", set, .RequestEqual(key, V, other)); } else { TYPED("RequestEqual", v, .RequestEqual(key, V, other)); } break;
    case 12: if (o.onSet) { TYPED("RequestGreater", set, .RequestGreater(key, V, other)); } else { TYPED("RequestGreater", v, .RequestGreater(key, V, other)); } break;
    case 13: if (o.onSet) { TYPED("RequestLessOrEqual", set, .RequestLessOrEqual(key, V, other)); } else { TYPED("RequestLessOrEqual", v, .RequestLessOrEqual(key, V, other)); } break;
    case 14: if (o.onSet) { TYPED("RequestInterval", set, .RequestInterval(key, V, V, other)); } else { TYPED("RequestInterval", v, .RequestInterval(key, V, V, other)); } break;
    case 15: if (o.onSet) { TYPED("RequestGreaterOrEqual", set, .RequestGreaterOrEqual(key, V, other)); } else { TYPED("RequestGreaterOrEqual", v, .RequestGreaterOrEqual(key, V, other)); } break;
    case 16: if (o.onSet) { TYPED("RequestLess", set, .RequestLess(key, V, other)); } else { TYPED("RequestLess", v, .RequestLess(key, V, other)); } break;
    case 17: out.place = 1; TYPED("Request", v, .Request(Equal(key, V) || Greater("A", 2), other)); break;
    case 18: out.place = 1; TYPED("Request", v, .Request(GreaterOrEqual(key, V) && Less("A", 5), other)); break;
    case 19: TYPED("EraseRecord", v, .EraseRecord("U", V)); break;
    case 20: if (o.b % 3 == 0) { TYPED("EraseRecords", v, .EraseRecords(key, V)); } else { r.IsOperationSuccess = v.EraseRecord(ref); } break;
    case 21: { std::vector<VaultRecordRef> x = o.onSet ? set.GetSortedRecords(key, o.c % 2 == 1) : v.GetSortedRecords(key, o.c % 2 == 1); t += Refs(x); break; }
    case 22: { std::vector<VaultRecordRef> x; v.SortBy("U", [&](const VaultRecordRef& y) { x.push_back(y); return x.size() < 4; }); t += Refs(x); break; }
    case 23: switch (o.c % 5) { case 0: r = set.Join(other); break; case 1: r = set.Exclude(other); break; case 2: r = set.Intersect(other); break; case 3: r = set.AddRecord(ref); break; default: r.IsOperationSuccess = set.RemoveRecord(ref); } break;
    case 24: if (o.onSet) { TYPED("RemoveRecords", set, .RemoveRecords(key, V)); } else { TYPED("RemoveRecord", set, .RemoveRecord("U", V)); } break;
    case 25: if (o.c % 4 == 0) v.Print(false, -1, "U"); else if (o.c % 4 == 1) set.Print(false, -1, "U"); else r.Print(); break;
    case 26: t += o.c % 2 ? Rows(v.ToStrings()) : ref.ToJson(); break;
    case 27: { r.IsOperationSuccess = v.SaveToFile(st.file); std::ifstream f(st.file); std::ostringstream s; s << f.rdbuf(); t += Lines(s.str()); break; }
    case 28: { { std::ofstream f(st.file); f << "U,A,none\r\n" << 1000 + st.next++ << ",5,1\r\n" << 1000 + st.next << ",x,2\r\n"; } r.IsOperationSuccess = v.ReadFile(st.file); for (auto& e : v.GetErrorsInLastReadedFile()) t += std::to_string(e.first) + ":" + e.second + ";"; break; }
    case 29:
        // a wrong type inside a callback
        out.place = 3;
        r = v.RequestGreaterOrEqual("U", 0, other, static_cast<std::size_t>(-1), [&](const VaultRecordRef& y) { double d = 0; t += std::to_string(static_cast<int>(y.GetData("A", d).ResultCode)); return true; });
        break;
    case 30: { Vault copy(v); t += Rows(copy.ToStrings()); if (o.c % 3 == 0) { Vault moved(std::move(copy)); t += std::to_string(moved.Size()); } else if (o.c % 3 == 1) { copy = v; t += std::to_string(copy.GetKeys().size()); } break; }
    default: if (o.c % 4 == 0) { v.DropData(); } else if (o.c % 4 == 1) { set.Clear(); } else if (o.c % 4 == 2) { set.Reset(); } else { ref.Reset(); } break;
    }
    (void)isResult;
    t += r.IsOperationSuccess ? " ok" : " no";
    t += std::to_string(static_cast<int>(r.ResultCode)) + r.Key + r.RequestedType.name() + r.SavedType.name();
    out.mismatch = !r.IsOperationSuccess && r.ResultCode == VaultOperationResultCode::WrongType;
    out.code = r.ResultCodeString();
    out.key = r.Key;
    out.requested = r.RequestedType.name();
    out.saved = r.SavedType.name();
}
