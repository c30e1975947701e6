// Explores all sequences of operations on the real dictionaries, stacks and hash of names
// and compares every step with a plain model.
//   adt FAMILY SLICE SLICES DEEP          all sequences of the family
//   adt FAMILY only CONFIG OPS            one sequence (replay)
// prints: BAD <config> <ops> <text> | STAT sequences states transitions
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include "dictionary.h"
#include "hash.h"
#include "memory.h"
#include "stacks.h"

extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
extern "C" void __sanitizer_set_death_callback(void (*)(void));

static std::string config, ops;
static long sequences, transitions, bads;
static std::set<size_t> states;
static int slice, slices;
static bool deep;

static void bad(const std::string& t)
{
    if (++bads <= 20)
        printf("BAD %s %s %s\n", config.c_str(), ops.empty() ? "-" : ops.c_str(), t.c_str());
    fflush(stdout);
}
static void died() { printf("BAD %s %s memory error\n", config.c_str(), ops.empty() ? "-" : ops.c_str()); fflush(stdout); }

// ---- dictionaries
struct Config { int type, size, preload; };
static std::vector<std::string> names;      // the keys of the operations
static std::vector<const void*> keys[2];    // by type: strings, pointers
static const int grows[2] = { 924, 1847 };    // more elements than fit before the table grows once, twice
static std::vector<std::string> pre;
static std::vector<const void*> prek[2];
enum { NK = 6 };
// two keys are the same key?
static bool same(int type, int a, int b) { return a == b || (type == 0 && a < 2 && b < 2); }

static unsigned long h(int type, const void* k) { return type ? hash_pointer_function(k) : hash_function((const char*)k); }

static void make_keys()
{
    names = { "label", "LaBeL", "", "", "", "labe" };
    auto find = [](std::function<bool(const char*)> ok) {
        char b[32];
        for (int i = 0; i < 10000000; i++) { snprintf(b, sizeof b, "c%d", i); if (ok(b)) return std::string(b); }
        return std::string("c0");
    };
    unsigned h0 = hash_function("label");
    names[2] = find([&](const char* s) { unsigned x = hash_function(s); return x % 1024 == h0 % 1024 && x % 2048 != h0 % 2048; });
    names[3] = find([&](const char* s) { unsigned x = hash_function(s); return x % 4096 == h0 % 4096; });
    for (auto& n : names) keys[0].push_back(n.c_str());
    auto findp = [](std::function<bool(const void*)> ok) {
        for (size_t i = 1; i < 100000000; i++) { const void* p = (void*)(0x600000000000 + i * 16); if (ok(p)) return p; }
        return (const void*)16;
    };
    const void* p0 = (void*)0x500000001000;
    unsigned q0 = hash_pointer_function(p0);
    keys[1] = { p0, (void*)((size_t)p0 + 1),
        findp([&](const void* s) { unsigned x = hash_pointer_function(s); return x % 1024 == q0 % 1024 && x % 2048 != q0 % 2048; }),
        findp([&](const void* s) { unsigned x = hash_pointer_function(s); return x % 4096 == q0 % 4096; }),
        nullptr, (void*)((size_t)p0 << 1) };
    for (int i = 0; i < 6000; i++) { pre.push_back("p" + std::to_string(i)); }
    for (int i = 0; i < 6000; i++) { prek[0].push_back(pre[i].c_str()); prek[1].push_back((void*)(size_t)(0x700000000000 + 48 * i)); }
}

struct Item { int key; std::vector<unsigned char> val; void* at; };
static std::map<std::string, size_t> found;
static int print_item(element_ptr e, FILE*) { found[std::string((char*)e->value, (char*)e->value + 1)]++; return 0; }

// ops: a..f insert key 0..5, A..F delete, '|' preload
static void run_dict(const Config& c, const std::string& seq)
{
    char cb[64];
    snprintf(cb, sizeof cb, "%d,%d,%d", c.type, c.size, c.preload);
    config = cb; ops = seq;
    sequences++;
    {
        dictionary_ptr d = dict_create(c.size, c.type);
        std::vector<Item> m;        // in order of insertion
        std::vector<std::pair<int, void*>> pl;
        int n = 0;
        std::vector<unsigned char> v(c.size);
        char kb[64];
        for (size_t o = 0; o < seq.size(); o++)
        {
            char op = seq[o];
            transitions++;
            if (op == '|')
            {
                while ((int)m.size() + (int)pl.size() < c.preload)
                {
                    int i = (int)pl.size();
                    for (int j = 0; j < c.size; j++) v[j] = (unsigned char)(i * 7 + j);
                    void* at = dict_insert(&d, (void*)prek[c.type][i], v.data());
                    pl.push_back({ i, at });
                }
            }
            else if (op >= 'a' && op <= 'z')
            {
                int k = op - 'a';
                n++;
                for (int j = 0; j < c.size; j++) v[j] = (unsigned char)(n * 31 + j + 1);
                void* key = (void*)keys[c.type][k];
                if (!c.type) { strcpy(kb, names[k].c_str()); key = kb; }
                void* at = dict_insert(&d, key, v.data());
                if (!at) { bad("insert returns nothing"); at = v.data(); }
                m.push_back({ k, v, at });
                // key and value belong to the caller
                memset(kb, 'z', 3);
                for (auto& x : v) x = 0xEE;
            }
            else
            {
                int k = op - 'A';
                dict_delete(d, keys[c.type][k]);
                for (size_t i = m.size(); i-- > 0;)
                    if (same(c.type, m[i].key, k)) { m.erase(m.begin() + i); break; }
            }
            size_t hs = c.type * 131 + c.size;
            for (auto& x : m) hs = hs * 1000003 + x.key * 257 + x.val[0];
            states.insert(hs * 31 + pl.size());
            for (int k = 0; k < NK; k++)
            {
                const Item* want = nullptr;
                for (auto& x : m) if (same(c.type, x.key, k)) want = &x;
                void* got = dict_search(d, keys[c.type][k]);
                char t[200];
                if (!want != !got) { snprintf(t, sizeof t, "after op %zu key %d is %sfound", o, k, got ? "" : "not "); bad(t); }
                else if (got && memcmp(got, want->val.data(), c.size)) { snprintf(t, sizeof t, "after op %zu key %d has a wrong value", o, k); bad(t); }
                else if (got && got != want->at) { snprintf(t, sizeof t, "after op %zu the value of key %d has moved", o, k); bad(t); }
            }
            if (d->number_elements != (long)(m.size() + pl.size())) bad("after op " + std::to_string(o) + " number of elements is " + std::to_string(d->number_elements) + " of " + std::to_string(m.size() + pl.size()));
        }
        for (auto& p : pl)
        {
            void* got = dict_search(d, prek[c.type][p.first]);
            if (!got) { bad("an element is lost"); break; }
            if (got != p.second || *(unsigned char*)got != (unsigned char)(p.first * 7)) { bad("an element has a wrong value"); break; }
        }
        // the whole contents, each element once
        std::map<std::string, size_t> want;
        for (auto& x : m) want[std::string((char*)x.val.data(), (char*)x.val.data() + 1)]++;
        for (auto& p : pl) want[std::string(1, (char)(p.first * 7))]++;
        found.clear();
        dump_dictionary(d, print_item, stdout);
        if (found != want) bad("the contents differ");
        dict_destroy(d);
        m.clear(); pl.clear();
        found.clear();
    }
}

// what a run leaves allocated
static void leak_dict(const Config& c, const std::string& seq)
{
    run_dict(c, seq);
    size_t a = 0, b = 0;
    for (int r = 0; r < 2; r++)
    {
        a = __sanitizer_get_current_allocated_bytes();
        dictionary_ptr d = dict_create(c.size, c.type);
        std::string val(c.size, 'v');
        int i = 0;
        for (char op : seq)
            if (op == '|') { while (d->number_elements < c.preload) dict_insert(&d, (void*)prek[c.type][i++], (void*)val.data()); }
            else if (op >= 'a') dict_insert(&d, (void*)keys[c.type][op - 'a'], (void*)val.data());
            else dict_delete(d, keys[c.type][op - 'A']);
        dict_destroy(d);
        val.clear(); val.shrink_to_fit();
        b = __sanitizer_get_current_allocated_bytes();
    }
    if (b > a) bad(std::to_string(b - a) + " bytes are left allocated");
}

static void all(const std::string& alphabet, int depth, std::function<void(const std::string&)> f, const std::string& head = "")
{
    f(head);
    if (depth == 0) return;
    for (char ch : alphabet) all(alphabet, depth - 1, f, head + ch);
}

static long turn;
static bool mine() { return turn++ % slices == slice; }

static void family_dict()
{
    const std::string ins = "abcdef", all_ops = "abcdefABCDEF";
    for (int t = 0; t < 2; t++)
        for (int size : { 1, 8, 120 })
            all(all_ops, deep ? 5 : 4, [&](const std::string& s) { if (mine()) leak_dict({ t, size, 0 }, s); });
}

static void family_grow()
{
    const std::string ins = "abcdef", all_ops = "abcdefABCDEF";
    for (int t = 0; t < 2; t++)
        for (int size : { 8 })
            for (int g = 0; g < 2; g++)
                for (int less = 0; less < 7; less++)
                    all(ins, 2, [&](const std::string& a) {
                        all(all_ops, std::min(2, (deep ? 4 : 3) - g - (int)a.size()), [&](const std::string& b) {
                            if (mine()) leak_dict({ t, size, grows[g] - less }, a + "|" + b);
                        });
                    });
}

// ---- stacks
static void run_stack(int size, int preload, const std::string& seq)
{
    char cb[64];
    snprintf(cb, sizeof cb, "%d,%d", size, preload);
    config = cb; ops = seq;
    sequences++;
    for (int r = 0; r < 2; r++)
    {
        size_t a = __sanitizer_get_current_allocated_bytes();
        {
            stack_ptr s = create_stack(size);
            std::vector<std::string> m;
            std::string v(size, 0);
            int n = 0;
            auto push = [&] {
                n++;
                for (int j = 0; j < size; j++) v[j] = (char)(n * 31 + j);
                s->push(s->instance, v.data());
                m.push_back(v);
                for (auto& x : v) x = 0x55;
            };
            for (int i = 0; i < preload; i++) push();
            for (size_t o = 0; o < seq.size(); o++)
            {
                transitions++;
                if (seq[o] == 'p') push();
                else if (seq[o] == 'o')
                {
                    if (m.empty()) continue;
                    void* at = s->pop(s->instance);
                    if (!at || memcmp(at, m.back().data(), size)) bad("after op " + std::to_string(o) + " pop returns a wrong value");
                    m.pop_back();
                }
                else if (seq[o] == 'c') { s->clear(s->instance); m.clear(); }
                else if (seq[o] == 't')
                {
                    if (m.empty()) continue;
                    // the value on top belongs to the stack and can be changed there
                    char* at = (char*)s->top(s->instance);
                    at[0] ^= 0x5A; m.back()[0] ^= 0x5A;
                }
                if (s->instance->index + 1 != (long)m.size()) bad("after op " + std::to_string(o) + " depth is " + std::to_string(s->instance->index + 1) + " of " + std::to_string(m.size()));
                if (!m.empty() && memcmp(s->top(s->instance), m.back().data(), size)) bad("after op " + std::to_string(o) + " top is wrong");
                for (size_t i = 0; i < m.size(); i++)
                    if (memcmp(s->item_at(s->instance, (long)i), m[i].data(), size)) { bad("after op " + std::to_string(o) + " item " + std::to_string(i) + " is wrong"); break; }
                size_t hs = size;
                for (auto& x : m) hs = hs * 131 + (unsigned char)x[0];
                states.insert(hs);
            }
            free_stack(s);
        }
        size_t b = __sanitizer_get_current_allocated_bytes();
        if (r && b > a) bad(std::to_string(b - a) + " bytes are left allocated");
        // the set of states grows in the first round only
    }
}

static void family_stack()
{
    for (int size : { 1, 4, 7, 8, 24, 120 })
        for (int preload : { 0, 1, 22, 23, 24, 25, 26, 47, 48, 49, 50, 51, 74, 75, 76, 199, 200, 201, 255, 256, 511, 512, 524, 525, 546, 999, 1000, 1023, 1024, 1100, 2049, 2725, 4097 })
            all("poct", preload < 60 ? (deep ? 7 : 5) : preload < 202 ? (deep ? 5 : 3) : deep ? 3 : 2, [&](const std::string& s) { if (mine()) run_stack(size, preload, s); });
}

// ---- names
static std::string lower(const std::string& s) { std::string r; for (char c : s) r += c >= 'A' && c <= 'Z' ? c + 32 : c; return r; }

static void pair(const std::string& a, const std::string& b)
{
    config = "pair"; ops = a + "," + b;
    sequences++; transitions++;
    bool eq = lower(a) == lower(b);
    if ((stricmp(a.c_str(), b.c_str()) == 0) != eq) bad(eq ? "the names compare as different" : "the names compare as equal");
    if (eq && hash_function(a.c_str()) != hash_function(b.c_str())) bad("names that are equal have different hashes");
}

static void family_names()
{
    std::vector<std::string> w;
    all("aAbBzZ_1.@\\+-[{", deep ? 3 : 2, [&](const std::string& s) { w.push_back(s); });
    all("aAbZz", deep ? 4 : 3, [&](const std::string& s) { w.push_back(s); });
    for (auto& a : w) { states.insert(std::hash<std::string>()(a)); if (mine()) for (auto& b : w) pair(a, b); }
    // every case pattern of long names
    for (std::string n : { "abcdefghij", "loop_count", "sec1.value", "label__@loc", "zzzzzzzzzz" })
        for (int m = 0; m < 1 << (int)n.size(); m++)
        {
            std::string x = n;
            for (size_t i = 0; i < n.size(); i++) if (m >> i & 1 && x[i] >= 'a' && x[i] <= 'z') x[i] -= 32;
            if (mine()) { pair(n, x); pair(x, n); }
        }
}

// ---- two long names in one chain
static void run_alike(const std::string& a, const std::string& b)
{
    config = "pair"; ops = a + "," + b;
    sequences++; transitions += 6;
    states.insert(std::hash<std::string>()(ops));
    for (int turn = 0; turn < 2; turn++)
    {
        const std::string& x = turn ? b : a; const std::string& y = turn ? a : b;
        dictionary_ptr d = dict_create(sizeof(int), 0);
        int v = 1, w = 2;
        auto is = [&](const std::string& n, int want, const char* when) {
            int* p = (int*)dict_search(d, n.c_str());
            if (!p != !want) bad(std::string(when) + ": " + (want ? "not found" : "found"));
            else if (p && *p != want) bad(std::string(when) + ": wrong value");
        };
        dict_insert(&d, (void*)x.c_str(), &v);
        is(x, 1, "first name"); is(y, 0, "the other name before it is inserted");
        dict_insert(&d, (void*)y.c_str(), &w);
        is(x, 1, "first name of two"); is(y, 2, "second name of two");
        dict_delete(d, x.c_str());
        is(x, 0, "deleted name"); is(y, 2, "name left");
        dict_delete(d, x.c_str());
        if (d->number_elements != 1) bad("deleting a name that is not there");
        dict_destroy(d);
    }
}

static void family_alike()
{
    std::vector<int> lens;
    for (int l = 1; l <= (deep ? 130 : 70); l++) lens.push_back(l);
    for (int l : { 127, 128, 129, 255, 256, 257, 300 }) lens.push_back(l);
    for (int len : lens)
        for (int p = 0; p <= len; p++)
        {
            if (!mine()) continue;
            // names that differ in the two characters at p only (p = len: one is longer)
            std::string base;
            for (int i = 0; i < len; i++) base += (char)('a' + i * 7 % 26);
            std::map<unsigned, std::string> seen;
            if (p == len) seen[hash_function(base.c_str()) % 1024] = base;
            bool done = false;
            for (int u = 0; u < 36 && !done; u++)
                for (int v = 0; v < 36 && !done; v++)
                {
                    auto ch = [](int k) { return (char)(k < 26 ? 'a' + k : '0' + k - 26); };
                    std::string n = base.substr(0, p) + ch(u) + (p < len - 1 || p == len ? std::string(1, ch(v)) : std::string()) + (p + 2 < len ? base.substr(p + 2) : std::string());
                    if (p == len - 1 && v) break;
                    unsigned hh = hash_function(n.c_str()) % 1024;
                    auto it = seen.find(hh);
                    if (it == seen.end()) { if (p != len) seen[hh] = n; }
                    else if (it->second != n) { run_alike(it->second, n); done = true; }
                }
        }
}

int main(int argc, char** argv)
{
    if (argc < 5) return 2;
    std::string fam = argv[1];
    __sanitizer_set_death_callback(died);
    make_keys();
    if (!strcmp(argv[2], "only"))
    {
        slice = 0; slices = 1;
        int a = 0, b = 0, c = 0;
        sscanf(argv[3], "%d,%d,%d", &a, &b, &c);
        std::string o = strcmp(argv[4], "-") ? argv[4] : "";
        if (fam == "dict" || fam == "grow") leak_dict({ a, b, c }, o);
        else if (fam == "stack") run_stack(a, b, o);
        else if (fam == "alike") { size_t k = o.find(','); run_alike(o.substr(0, k), o.substr(k + 1)); }
        else { size_t k = o.find(','); pair(o.substr(0, k), o.substr(k + 1)); }
    }
    else
    {
        slice = atoi(argv[2]); slices = atoi(argv[3]); deep = atoi(argv[4]);
        if (fam == "dict") family_dict();
        else if (fam == "grow") family_grow();
        else if (fam == "stack") family_stack();
        else if (fam == "names") family_names();
        else if (fam == "alike") family_alike();
    }
    printf("STAT %ld %zu %ld %ld\n", sequences, states.size(), transitions, bads);
    fflush(stdout);
    _exit(bads ? 1 : 0);
}
