// Properties decided by the vault state machine.
#include "machine.h"
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();

using pbt::Src;

static std::function<void(Src&)> Machine(uint64_t focus, unsigned maxOps = 60, unsigned avg = 25)
{
    return [=](Src& s) { Options o; o.focus = focus; o.maxOps = maxOps; o.avgOps = avg; RunMachine(s, o); };
}

// P33: after a whole history nothing the library allocated survives.  The same history is run three times in
// this process; the heap may not grow from the second run to the third, and no key value may stay alive.
static void Leaks(Src& s)
{
    Options o; o.focus = P(33); o.avgOps = 20;
    RunMachine(s, o);
    std::vector<uint64_t> choices = s.used;
    std::size_t before = 0, after = 0;
    long long liveBefore = 0, liveAfter = 0;
    for (int k = 0; k < 2; ++k)
    {
        liveBefore = Tracked::live;
        before = __sanitizer_get_current_allocated_bytes();
        {
            Src r;
            r.mode = Src::Replay;
            r.choices = choices;
            Src* keep = pbt::Cur;
            pbt::Cur = &r;
            RunMachine(r, o);
            pbt::Cur = keep;
        }
        after = __sanitizer_get_current_allocated_bytes();
        liveAfter = Tracked::live;
    }
    PBT_CHECK(P(33), liveAfter == liveBefore, "%lld key values are still alive after everything was destroyed", liveAfter - liveBefore);
    PBT_CHECK(P(33), after <= before, "%zu bytes are still allocated after everything was destroyed", after - before);
    pbt::Mark("balanced");
}

// P38: a vault that is filled and emptied again and again.  The heap may not grow with every round.
static void LongLife(Src& s)
{
    Options o; o.focus = P(38); o.avgOps = 15;
    std::vector<long long> bytes, live;
    bytes.reserve(16); live.reserve(16);
    RunLong(s, o, [&] { bytes.push_back(static_cast<long long>(__sanitizer_get_current_allocated_bytes())); live.push_back(Tracked::live); });
    std::size_t n = bytes.size();
    // the first rounds may still let containers reach their size
    bool grows = true, values = true;
    for (std::size_t k = 2; k < n; ++k) { grows = grows && bytes[k] > bytes[k - 1]; values = values && live[k] > live[k - 1]; }
    PBT_CHECK(P(38), !values, "each use of the vault leaves %lld more key values alive, though it was emptied", live[n - 1] - live[n - 2]);
    PBT_CHECK(P(38), !grows, "each use of the vault leaves %lld more bytes allocated, though it was emptied", bytes[n - 1] - bytes[n - 2]);
}

int main(int argc, char** argv)
{
    const std::string hist = "the history ";
    std::vector<pbt::Property> props;
    auto add = [&](int n, std::vector<std::string> labels, std::string rule, uint64_t quick, uint64_t thorough)
    {
        pbt::Property p;
        p.id = pbt::Fmt("P%02d", n);
        p.bit = P(n);
        p.run = n == 33 ? std::function<void(Src&)>(Leaks) : n == 38 ? std::function<void(Src&)>(LongLife) : Machine(P(n));
        p.nontrivial = labels;
        p.rule = rule;
        p.quickCases = quick;
        p.thoroughCases = thorough;
        props.push_back(p);
    };
    const uint64_t Q = 10000, TH = 400000;
    add(1, {"update-of-shared-value|erase-of-shared-value|keys-added-to-records|key-removed-with-records"}, "the history updates or erases a record whose value is shared with another record, or adds or removes a key while records exist", Q, TH);
    add(2, {"update-of-shared-value|erase-of-shared-value"}, "the history updates or erases a record whose value in some key is shared with another record", Q, TH);
    add(3, {"selective-request|interval-hit"}, "some simple request selects a proper non-empty part of the records", Q, TH);
    add(4, {"limited|predicate"}, "some query is limited below its number of matches or uses a selective predicate", Q, TH);
    add(5, {"selective-complex"}, "some And/Or request selects a proper non-empty part of the records", Q, TH);
    add(6, {"sorted2"}, "some sorted iteration visits at least two records", Q, TH);
    add(7, {"unique-clash|unique-update"}, "the history tries to store a taken unique value or updates a unique value", Q, TH);
    add(8, {"failed-op"}, "the history contains an operation that must fail", Q, TH);
    add(9, {"failed-op|default-updated"}, "the history contains a failing operation or an updated default", Q, TH);
    add(10, {"keys-added-to-records|key-removed-with-records|default-updated"}, "the history adds or removes a key while records exist, or updates a default", Q, TH);
    add(11, {"erase-of-shared-value|dropped-data"}, "the history erases a record whose value is shared with another one, or drops existing data", Q, TH);
    add(12, {"update-of-shared-value|callback-ref-kept|update-seen-by-set"}, "a record is written through one reference while others observe it", Q, TH);
    add(13, {"dead-ref-used|null-set-used|ref-of-destroyed-vault|set-of-destroyed-vault"}, "the history uses a reference or set whose record or vault is gone", Q, TH);
    add(14, {"update-seen-by-set|erase-seen-by-set"}, "a record that belongs to a set is updated or erased", Q, TH);
    add(15, {"overlapping-algebra"}, "some set operation has operands that overlap without being contained in one another", Q, TH);
    add(16, {"set-copied|set-moved|set-moved-over", "record-added-to-set|record-removed-from-set"}, "the history copies or moves a set and adds or removes records of sets", Q, TH);
    add(17, {"record-added-to-set|record-removed-from-set|set-algebra"}, "the history changes a set directly", Q, TH);
    add(18, {"vault-copied-with-records"}, "the history copies a vault that holds records", Q, TH);
    add(19, {"vault-moved"}, "the history moves a vault", Q, TH);
    add(33, {"balanced"}, "the history ran three times and was torn down", Q, TH);
    add(38, {"long-used"}, "the vault held records when it was emptied", Q / 2, TH / 2);
    return pbt::Main(argc, argv, props);
}
