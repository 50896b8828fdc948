// Executes the assembly text that cmmc prints (RV64GC_Zba_Zbb, ARMv7-A + VFPv4, MIPS32 with
// delay slots) and records what a user of the program would observe: output and exit code.
// It is the stand-in for the hardware: strict about memory (no access outside the program's
// objects and stack, natural alignment), hostile about everything the ABI leaves open
// (registers and stack start with garbage; a library call destroys every register it may).
#include <set>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
using namespace std;
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32;

enum Isa { RV, ARM, MIPS } isa;
struct Fault { string why; bool unsupported; };
struct Exit { int code; };   // the exit system call
[[noreturn]] static void fault(const string& s) { throw Fault{ s, false }; }
[[noreturn]] static void unsupported(const string& s) { throw Fault{ s, true }; }

// ------------------------------------------------------------------ machine
static u64 R[33];            // integer registers (ARM: 0-15; MIPS: 32 = none)
static u64 F[64];            // float registers (bit patterns, single precision in the low half)
static u64 HI, LO;
static bool CN, CZ, CC, CV;  // ARM flags
static bool FCC[8];          // MIPS float condition flags
static bool FN_, FZ, FCf, FVf;
static u64 steps, maxSteps = 400000000ULL;
static string outbuf;
static size_t maxOut = 1 << 15;
static vector<string> inTok; static string inRaw; static size_t inPos;

static u64 DBASE, STOP, SBASE;
static const u64 TBASE = 0x10000, EXITADDR = 0x8, RETADDR = 0x4;
static vector<uint8_t> dataMem;
static uint8_t* stackMem;    // calloc: only the pages the program touches cost anything

static uint8_t* mem(u64 a, unsigned n) {
    if(isa != RV) a = (u32)a;
    if(a & (n - 1)) { char b[64]; snprintf(b, 64, "misaligned access of %u bytes at 0x%llx", n, (unsigned long long)a); fault(b); }
    if(a >= DBASE && a + n <= DBASE + dataMem.size()) return &dataMem[a - DBASE];
    if(a >= SBASE && a + n <= STOP) return &stackMem[a - SBASE];
    char b[80]; snprintf(b, 80, "access of %u bytes outside the program's memory at 0x%llx", n, (unsigned long long)a); fault(b);
}
template <class T> static T ld(u64 a) { T v; memcpy(&v, mem(a, sizeof(T)), sizeof(T)); return v; }
template <class T> static void st(u64 a, T v) { memcpy(mem(a, sizeof(T)), &v, sizeof(T)); }
static float f32(u32 b) { float f; memcpy(&f, &b, 4); return f; }
static u32 b32(float f) { u32 b; memcpy(&b, &f, 4); return b; }

// ------------------------------------------------------------------ program text
struct Insn { string text; int line; function<void()> ex; vector<string> op; string mn; };
static vector<Insn> code;
static u64 pc, npc;                 // index of the instruction, of the next one
static map<string, u64> symText;    // instruction index
static map<string, u64> symData;    // address
struct Fix { u64 at; string sym; i64 add; int size; };
static vector<Fix> fixes;
static unordered_map<string, i64> equ;

static string trim(const string& s) { size_t a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r"); return a == string::npos ? "" : s.substr(a, b - a + 1); }
static bool isnum(const string& s) { if(s.empty()) return false; char* e; strtoll(s.c_str(), &e, 0); return !*e; }
static i64 num(const string& s) {
    if(s.empty()) unsupported("number expected");
    char* e; i64 v = s[0] == '-' ? strtoll(s.c_str(), &e, 0) : (i64)strtoull(s.c_str(), &e, 0);
    if(*e) unsupported("number expected: " + s);
    return v;
}
static u64 taddr(u64 idx) { return TBASE + idx * 4; }
static u64 addrOf(const string& e) {
    string s = e; i64 add = 0;
    size_t p = s.find_last_of("+-");
    if(p != string::npos && p > 0 && isnum(s.substr(p + 1))) { add = num(s.substr(p + 1)) * (s[p] == '-' ? -1 : 1); s = s.substr(0, p); }
    auto d = symData.find(s);
    if(d != symData.end()) return d->second + add;
    auto t = symText.find(s);
    if(t != symText.end()) return taddr(t->second) + add;
    unsupported("undefined symbol " + s);
}
static vector<string> splitOps(const string& s) {
    vector<string> r; string c; int d = 0;
    for(char ch : s) {
        if(ch == '(' || ch == '[' || ch == '{') ++d;
        if(ch == ')' || ch == ']' || ch == '}') --d;
        if(ch == ',' && !d) { r.push_back(trim(c)); c.clear(); } else c += ch;
    }
    if(!trim(c).empty()) r.push_back(trim(c));
    return r;
}

// ------------------------------------------------------------------ run-time library
static string tok() {
    while(inPos < inRaw.size() && isspace((unsigned char)inRaw[inPos])) ++inPos;
    size_t b = inPos;
    while(inPos < inRaw.size() && !isspace((unsigned char)inRaw[inPos])) ++inPos;
    if(b == inPos) fault("input exhausted");
    return inRaw.substr(b, inPos - b);
}
static void put(const string& s) { outbuf += s; if(outbuf.size() > maxOut) fault("output too long"); }
static u32 rnd() { static u32 s = 12345; s = s * 1664525u + 1013904223u; return s ^ 0x5aa55aa5u; }

static u64 iarg(int i) { return isa == RV ? R[10 + i] : isa == ARM ? R[i] : R[4 + i]; }
static float farg() { return isa == RV ? f32((u32)F[10]) : isa == ARM ? f32((u32)F[0]) : f32((u32)F[12]); }
static void iret(i32 v) { if(isa == RV) R[10] = (u64)(i64)v; else if(isa == ARM) R[0] = (u32)v; else R[2] = (u32)v; }
static void pret(u64 v) { if(isa == RV) R[10] = v; else if(isa == ARM) R[0] = (u32)v; else R[2] = (u32)v; }
static void fret(float f) { F[isa == RV ? 10 : 0] = isa == RV ? 0xffffffff00000000ULL | b32(f) : b32(f); }
// -known: execute as if the defects recorded in known_findings.jsonl were repaired (at their sites only)
static bool knownMode = false; static int knownSites = 0;
static i64 exact[32]; static bool hasExact[32]; // mips, see KF9 below
static void clobber() {
    if(isa == RV) { for(int i : { 1, 5, 6, 7, 10, 11, 12, 13, 14, 15, 16, 17, 28, 29, 30, 31 }) R[i] = (u64)rnd() << 32 | rnd();
        for(int i = 0; i < 32; ++i) if(!(i == 8 || i == 9 || (i >= 18 && i <= 27))) F[i] = 0xffffffff00000000ULL | rnd(); }
    else if(isa == ARM) { for(int i : { 0, 1, 2, 3, 12, 14 }) R[i] = rnd(); for(int i = 0; i < 16; ++i) F[i] = rnd(); for(int i = 32; i < 64; ++i) F[i] = rnd(); CN = rnd() & 1; CZ = rnd() & 2; CC = rnd() & 4; CV = rnd() & 8; }
    else { for(int i : { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 24, 25, 31 }) R[i] = rnd(), hasExact[i] = false; for(int i = 0; i < 20; ++i) F[i] = rnd(); HI = rnd(); LO = rnd(); FCC[0] = rnd() & 1; }
}
static void runUntil(u64 idx);
static string parMode = "one";
static void callBack(u64 fn, i32 a, i32 b) {
    clobber();
    u64 idx = (fn - TBASE) / 4;
    if(isa == RV) { R[10] = (u64)(i64)a; R[11] = (u64)(i64)b; R[1] = RETADDR; }
    else if(isa == ARM) { R[0] = (u32)a; R[1] = (u32)b; R[14] = RETADDR; }
    else { R[4] = (u32)a; R[5] = (u32)b; R[31] = RETADDR; }
    u64 save[33]; memcpy(save, R, sizeof(R));
    runUntil(idx);
    int sp = isa == RV ? 2 : isa == ARM ? 13 : 29;
    if(R[sp] != save[sp]) fault("a parallel loop body does not restore the stack pointer");
}
static int parDepth; static u64 parCalls;
static void parallelFor(i32 beg, i32 end, u64 fn) {
    if(end <= beg) return;
    if(parDepth) fault("nested cmmcParallelFor");
    ++parDepth; ++parCalls;
    vector<pair<i32, i32>> ch;
    if(parMode == "one") ch.push_back({ beg, end });
    else {
        i64 n = (i64)end - beg, i = beg; int k = parMode == "unit" ? 1 : 3;
        i64 step = parMode == "unit" ? 1 : max<i64>(1, (n + k - 1) / k);
        for(; i < end; i += step) ch.push_back({ (i32)i, (i32)min<i64>(i + step, end) });
        if(parMode != "split") reverse(ch.begin(), ch.end());
    }
    u64 save[33]; memcpy(save, R, sizeof(R)); u64 sf[64]; memcpy(sf, F, sizeof(F));
    for(auto& c : ch) { memcpy(R, save, sizeof(R)); memcpy(F, sf, sizeof(F)); callBack(fn, c.first, c.second); }
    memcpy(R, save, sizeof(R)); memcpy(F, sf, sizeof(F));
    --parDepth;
}
static string fmtf(float f) { char b[64]; snprintf(b, 64, "%a", (double)f); return b; }

typedef function<void()> Hook;
static unordered_map<string, Hook> hooks;
static void initHooks() {
    auto H = [&](const char* n, Hook h) { hooks[n] = h; };
    H("getint", [] { i32 v = (i32)strtoll(tok().c_str(), 0, 10); clobber(); iret(v); });
    H("getch", [] { i32 v = inPos < inRaw.size() ? (unsigned char)inRaw[inPos++] : -1; clobber(); iret(v); });
    H("getfloat", [] { float v = strtof(tok().c_str(), 0); clobber(); fret(v); });
    H("getarray", [] { u64 p = iarg(0); i32 n = (i32)strtoll(tok().c_str(), 0, 10); for(i32 i = 0; i < n; ++i) st<i32>(p + 4 * (u64)i, (i32)strtoll(tok().c_str(), 0, 10)); clobber(); iret(n); });
    H("getfarray", [] { u64 p = iarg(0); i32 n = (i32)strtoll(tok().c_str(), 0, 10); for(i32 i = 0; i < n; ++i) st<float>(p + 4 * (u64)i, strtof(tok().c_str(), 0)); clobber(); iret(n); });
    H("putint", [] { put(to_string((i32)iarg(0))); clobber(); });
    H("putch", [] { put(string(1, (char)iarg(0))); clobber(); });
    H("putfloat", [] { put(fmtf(farg())); clobber(); });
    H("putarray", [] { i32 n = (i32)iarg(0); u64 p = iarg(1); string s = to_string(n) + ":"; for(i32 i = 0; i < n; ++i) s += " " + to_string(ld<i32>(p + 4 * (u64)i)); put(s + "\n"); clobber(); });
    H("putfarray", [] { i32 n = (i32)iarg(0); u64 p = iarg(1); string s = to_string(n) + ":"; for(i32 i = 0; i < n; ++i) s += " " + fmtf(ld<float>(p + 4 * (u64)i)); put(s + "\n"); clobber(); });
    H("_sysy_starttime", [] { clobber(); }); H("_sysy_stoptime", [] { clobber(); });
    H("starttime", [] { clobber(); }); H("stoptime", [] { clobber(); });
    H("memset", [] { u64 p = iarg(0); uint8_t c = (uint8_t)iarg(1); u64 n = isa == RV ? iarg(2) : (u32)iarg(2); if(n > 1u << 28) fault("memset of a huge block"); for(u64 i = 0; i < n; ++i) st<uint8_t>(p + i, c); clobber(); pret(p); });
    H("memcpy", [] { u64 p = iarg(0), q = iarg(1), n = isa == RV ? iarg(2) : (u32)iarg(2); if(n > 1u << 28) fault("memcpy of a huge block"); for(u64 i = 0; i < n; ++i) st<uint8_t>(p + i, ld<uint8_t>(q + i)); clobber(); pret(p); });
    H("cmmcParallelFor", [] { i32 b = (i32)iarg(0), e = (i32)iarg(1); u64 f = iarg(2); if(isa != RV) f = (u32)f; parallelFor(b, e, f); clobber(); });
    H("cmmcReduceAddI32", [] { u64 p = iarg(0); i32 v = (i32)iarg(1); st<u32>(p, ld<u32>(p) + (u32)v); clobber(); });
    H("cmmcReduceAddF32", [] { u64 p = iarg(0); float v = isa == ARM ? f32((u32)F[0]) : farg(); st<float>(p, ld<float>(p) + v); clobber(); });
    H("cmmcAddRec3SRem", [] { i64 n = (i32)iarg(0); i32 r = (i32)iarg(1); if(!r) fault("division by zero"); i32 v = (i32)(n * (n - 1) / 2 % r); clobber(); iret(v); });
    H("__aeabi_idiv0", [] { fault("division by zero"); });
    // the memo table of the run-time library (cmmc/Runtime/cmmc_sysy_rt.cpp)
    H("cmmcCacheLookup", [] {
        u64 t = iarg(0); u64 key = (u64)(i64)(i32)iarg(1) << 32 | (u64)(u32)iarg(2);
        u64 e = t + 16 * (key % 1021);
        if(ld<u32>(e + 12) == 0 || ld<u64>(e) != key) { st<u64>(e, key); st<u32>(e + 12, 0); }
        clobber(); pret(e); });
}

static void branchTo(u64 idx) { npc = idx; }
static function<void()> callTo(const string& sym, int link) {
    string s = sym; size_t p = s.find("(PLT)"); if(p != string::npos) s = s.substr(0, p); p = s.find("@plt"); if(p != string::npos) s = s.substr(0, p);
    auto h = hooks.find(s);
    if(h != hooks.end()) { Hook k = h->second; return [k, link] { u64 ret = npc; k(); if(link >= 0) R[link] = taddr(ret); npc = ret; }; }
    auto t = symText.find(s);
    if(t == symText.end()) return [s] { unsupported("call of undefined function " + s); };
    u64 i = t->second;
    return [i, link] { if(link >= 0) R[link] = taddr(npc); npc = i; };
}
static void jumpReg(u64 a) {
    if(isa != RV) a = (u32)a;
    if(a == EXITADDR || a == RETADDR) { npc = a == EXITADDR ? ~0ULL : ~1ULL; return; }
    if(a < TBASE || (a & 3) || (a - TBASE) / 4 >= code.size()) fault("jump to a bad address");
    npc = (a - TBASE) / 4;
}
static u64 label(const string& s) { auto t = symText.find(s); if(t == symText.end()) unsupported("undefined label " + s); return t->second; }

// ------------------------------------------------------------------ RISC-V
static int rvReg(const string& s) {
    static const unordered_map<string, int> m = [] { unordered_map<string, int> m; const char* n[] = { "zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "s0", "s1", "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "t3", "t4", "t5", "t6" };
        for(int i = 0; i < 32; ++i) { m[n[i]] = i; m["x" + to_string(i)] = i; } m["fp"] = 8; return m; }();
    auto i = m.find(s); if(i == m.end()) unsupported("register " + s); return i->second;
}
static int rvF(const string& s) {
    static const unordered_map<string, int> m = [] { unordered_map<string, int> m; const char* n[] = { "ft0", "ft1", "ft2", "ft3", "ft4", "ft5", "ft6", "ft7", "fs0", "fs1", "fa0", "fa1", "fa2", "fa3", "fa4", "fa5", "fa6", "fa7", "fs2", "fs3", "fs4", "fs5", "fs6", "fs7", "fs8", "fs9", "fs10", "fs11", "ft8", "ft9", "ft10", "ft11" };
        for(int i = 0; i < 32; ++i) { m[n[i]] = i; m["f" + to_string(i)] = i; } return m; }();
    auto i = m.find(s); if(i == m.end()) unsupported("register " + s); return i->second;
}
static void setF(int d, u32 b) { F[d] = 0xffffffff00000000ULL | b; }
static u32 getF(int d) { return (F[d] >> 32) == 0xffffffffu ? (u32)F[d] : 0x7fc00000u; }
static void wr(int d, u64 v) { if(d) R[d] = v; }
static u64 sx(u32 v) { return (u64)(i64)(i32)v; }
struct Rel { bool isRel; bool hi; i64 v; };
static pair<i64, i64> hilo(i64 off) { i64 lo = ((off & 0xfff) ^ 0x800) - 0x800; return { (off - lo) >> 12, lo }; }
static i64 rvImm(const string& s, u64 idx) {
    if(s.compare(0, 10, "%pcrel_hi(") == 0) return hilo((i64)addrOf(s.substr(10, s.size() - 11)) - (i64)taddr(idx)).first;
    if(s.compare(0, 10, "%pcrel_lo(") == 0) {
        u64 a = label(s.substr(10, s.size() - 11));
        auto& I = code[a];
        if(I.mn != "auipc") unsupported("%pcrel_lo does not name an auipc");
        string h = I.op[1]; return hilo((i64)addrOf(h.substr(10, h.size() - 11)) - (i64)taddr(a)).second;
    }
    if(s.compare(0, 4, "%hi(") == 0) return hilo((i64)addrOf(s.substr(4, s.size() - 5))).first & 0xfffff;
    if(s.compare(0, 4, "%lo(") == 0) return hilo((i64)addrOf(s.substr(4, s.size() - 5))).second;
    return num(s);
}
static i32 cvtws(float f, bool rtz) {
    if(f != f) return 0x7fffffff;
    double d = rtz ? trunc((double)f) : nearbyint((double)f);
    if(d >= 2147483648.0) return 0x7fffffff;
    if(d < -2147483648.0) return (i32)0x80000000;
    return (i32)d;
}
static i64 sdivT(i64 a, i64 b, int bits) { if(b == 0) return -1; if(a == (bits == 32 ? (i64)INT32_MIN : INT64_MIN) && b == -1) return a; return a / b; }
static i64 sremT(i64 a, i64 b, int bits) { if(b == 0) return a; if(b == -1) return 0; (void)bits; return a % b; }
static void decodeRV(Insn& I, u64 idx) {
    auto& o = I.op; const string& m = I.mn;
    typedef u64 (*B2)(u64, u64);
    static const unordered_map<string, B2> rrr = {
        { "add", +[](u64 a, u64 b) { return a + b; } }, { "sub", +[](u64 a, u64 b) { return a - b; } },
        { "addw", +[](u64 a, u64 b) { return sx((u32)a + (u32)b); } }, { "subw", +[](u64 a, u64 b) { return sx((u32)a - (u32)b); } },
        { "mul", +[](u64 a, u64 b) { return a * b; } }, { "mulw", +[](u64 a, u64 b) { return sx((u32)a * (u32)b); } },
        { "mulh", +[](u64 a, u64 b) { return (u64)(((__int128)(i64)a * (i64)b) >> 64); } }, { "mulhu", +[](u64 a, u64 b) { return (u64)(((unsigned __int128)a * b) >> 64); } },
        { "div", +[](u64 a, u64 b) { return (u64)sdivT((i64)a, (i64)b, 64); } }, { "rem", +[](u64 a, u64 b) { return (u64)sremT((i64)a, (i64)b, 64); } },
        { "divw", +[](u64 a, u64 b) { return sx((u32)sdivT((i32)a, (i32)b, 32)); } }, { "remw", +[](u64 a, u64 b) { return sx((u32)sremT((i32)a, (i32)b, 32)); } },
        { "divu", +[](u64 a, u64 b) { return b ? a / b : ~(u64)0; } }, { "remu", +[](u64 a, u64 b) { return b ? a % b : a; } },
        { "divuw", +[](u64 a, u64 b) { return sx((u32)b ? (u32)a / (u32)b : ~0u); } }, { "remuw", +[](u64 a, u64 b) { return sx((u32)b ? (u32)a % (u32)b : (u32)a); } },
        { "and", +[](u64 a, u64 b) { return a & b; } }, { "or", +[](u64 a, u64 b) { return a | b; } }, { "xor", +[](u64 a, u64 b) { return a ^ b; } },
        { "andn", +[](u64 a, u64 b) { return a & ~b; } }, { "orn", +[](u64 a, u64 b) { return a | ~b; } }, { "xnor", +[](u64 a, u64 b) { return ~(a ^ b); } },
        { "sll", +[](u64 a, u64 b) { return a << (b & 63); } }, { "srl", +[](u64 a, u64 b) { return a >> (b & 63); } }, { "sra", +[](u64 a, u64 b) { return (u64)((i64)a >> (b & 63)); } },
        { "sllw", +[](u64 a, u64 b) { return sx((u32)a << (b & 31)); } }, { "srlw", +[](u64 a, u64 b) { return sx((u32)a >> (b & 31)); } }, { "sraw", +[](u64 a, u64 b) { return sx((u32)((i32)a >> (b & 31))); } },
        { "slt", +[](u64 a, u64 b) { return (u64)((i64)a < (i64)b); } }, { "sltu", +[](u64 a, u64 b) { return (u64)(a < b); } },
        { "sgt", +[](u64 a, u64 b) { return (u64)((i64)a > (i64)b); } }, { "sgtu", +[](u64 a, u64 b) { return (u64)(a > b); } },
        { "sh1add", +[](u64 a, u64 b) { return (a << 1) + b; } }, { "sh2add", +[](u64 a, u64 b) { return (a << 2) + b; } }, { "sh3add", +[](u64 a, u64 b) { return (a << 3) + b; } },
        { "add.uw", +[](u64 a, u64 b) { return (u64)(u32)a + b; } }, { "sh1add.uw", +[](u64 a, u64 b) { return ((u64)(u32)a << 1) + b; } }, { "sh2add.uw", +[](u64 a, u64 b) { return ((u64)(u32)a << 2) + b; } }, { "sh3add.uw", +[](u64 a, u64 b) { return ((u64)(u32)a << 3) + b; } },
        { "min", +[](u64 a, u64 b) { return (i64)a < (i64)b ? a : b; } }, { "max", +[](u64 a, u64 b) { return (i64)a > (i64)b ? a : b; } },
        { "minu", +[](u64 a, u64 b) { return a < b ? a : b; } }, { "maxu", +[](u64 a, u64 b) { return a > b ? a : b; } },
        { "rorw", +[](u64 a, u64 b) { u32 x = (u32)a; b &= 31; return sx(b ? x >> b | x << (32 - b) : x); } } };
    static const unordered_map<string, string> imms = { { "addi", "add" }, { "addiw", "addw" }, { "andi", "and" }, { "ori", "or" }, { "xori", "xor" }, { "slli", "sll" }, { "srli", "srl" }, { "srai", "sra" }, { "slliw", "sllw" }, { "srliw", "srlw" }, { "sraiw", "sraw" }, { "slti", "slt" }, { "sltiu", "sltu" } };
    static const unordered_map<string, bool (*)(u64, u64)> brs = {
        { "beq", +[](u64 a, u64 b) { return a == b; } }, { "bne", +[](u64 a, u64 b) { return a != b; } }, { "blt", +[](u64 a, u64 b) { return (i64)a < (i64)b; } }, { "bge", +[](u64 a, u64 b) { return (i64)a >= (i64)b; } },
        { "bgt", +[](u64 a, u64 b) { return (i64)a > (i64)b; } }, { "ble", +[](u64 a, u64 b) { return (i64)a <= (i64)b; } }, { "bltu", +[](u64 a, u64 b) { return a < b; } }, { "bgeu", +[](u64 a, u64 b) { return a >= b; } },
        { "bgtu", +[](u64 a, u64 b) { return a > b; } }, { "bleu", +[](u64 a, u64 b) { return a <= b; } } };
    auto need = [&](size_t n) { if(o.size() != n) unsupported("operands of " + I.text); };
    auto memop = [&](const string& s, i64& off, int& base) { size_t p = s.rfind('('); if(p == string::npos) unsupported("memory operand " + s); base = rvReg(s.substr(p + 1, s.size() - p - 2)); string q = trim(s.substr(0, p)); off = q.empty() ? 0 : rvImm(q, idx); };
    if(auto i = rrr.find(m); i != rrr.end()) { need(3); int d = rvReg(o[0]), a = rvReg(o[1]); B2 f = i->second;
        if(isnum(o[2])) { i64 v = num(o[2]); I.ex = [=] { wr(d, f(R[a], (u64)v)); }; return; }     // "add a0, a0, 1" is an alias of addi
        int b = rvReg(o[2]); I.ex = [=] { wr(d, f(R[a], R[b])); }; return; }
    if(m == "srli" && o.size() == 3 && o[2] == "32") {
        // -known: the high word of the magic product in x/3 and x/6 (RISCVISelInfo.cpp buildMul64Imm) taken as signed
        bool site = false; set<string> signs;
        for(u64 k = idx > 16 ? idx - 16 : 0; k < min<u64>(code.size(), idx + 17); ++k) {
            auto& c = code[k]; if(c.mn == "srli" && c.op.size() == 3 && c.op[1] == o[1] && c.op[2] == "63") signs.insert(c.op[0]); }
        for(u64 k = idx > 16 ? idx - 16 : 0; k < min<u64>(code.size(), idx + 17); ++k) {
            auto& c = code[k]; if(c.mn == "add" && c.op.size() == 3 && ((c.op[1] == o[0] && signs.count(c.op[2])) || (c.op[2] == o[0] && signs.count(c.op[1])))) site = true; }
        if(site) ++knownSites;
        if(site && knownMode) { int d = rvReg(o[0]), a = rvReg(o[1]); I.ex = [=] { wr(d, (u64)((i64)R[a] >> 32)); }; return; }
    }
    if(auto i = imms.find(m); i != imms.end()) { need(3); int d = rvReg(o[0]), a = rvReg(o[1]); i64 v = rvImm(o[2], idx); B2 f = rrr.at(i->second); I.ex = [=] { wr(d, f(R[a], (u64)v)); }; return; }
    if(m == "slli.uw") { need(3); int d = rvReg(o[0]), a = rvReg(o[1]); i64 v = num(o[2]); I.ex = [=] { wr(d, (u64)(u32)R[a] << v); }; return; }
    if(m == "roriw") { need(3); int d = rvReg(o[0]), a = rvReg(o[1]); i64 v = num(o[2]); B2 f = rrr.at("rorw"); I.ex = [=] { wr(d, f(R[a], (u64)v)); }; return; }
    if(auto i = brs.find(m); i != brs.end()) { need(3); int a = rvReg(o[0]), b = rvReg(o[1]); u64 t = label(o[2]); auto f = i->second; I.ex = [=] { if(f(R[a], R[b])) branchTo(t); }; return; }
    if(m == "beqz" || m == "bnez" || m == "bltz" || m == "bgez" || m == "blez" || m == "bgtz") { need(2); int a = rvReg(o[0]); u64 t = label(o[1]); char k = m[1]; char k2 = m[2];
        I.ex = [=] { i64 v = (i64)R[a]; bool c = k == 'e' ? v == 0 : k == 'n' ? v != 0 : k == 'l' ? (k2 == 't' ? v < 0 : v <= 0) : (k2 == 'e' ? v >= 0 : v > 0); if(c) branchTo(t); }; return; }
    static const unordered_map<string, u64 (*)(u64)> un = {
        { "mv", +[](u64 a) { return a; } }, { "neg", +[](u64 a) { return 0 - a; } }, { "negw", +[](u64 a) { return sx(0 - (u32)a); } }, { "not", +[](u64 a) { return ~a; } },
        { "sext.w", +[](u64 a) { return sx((u32)a); } }, { "zext.w", +[](u64 a) { return (u64)(u32)a; } }, { "zext.h", +[](u64 a) { return (u64)(uint16_t)a; } }, { "sext.h", +[](u64 a) { return (u64)(i64)(int16_t)a; } }, { "sext.b", +[](u64 a) { return (u64)(i64)(int8_t)a; } }, { "zext.b", +[](u64 a) { return (u64)(uint8_t)a; } },
        { "seqz", +[](u64 a) { return (u64)(a == 0); } }, { "snez", +[](u64 a) { return (u64)(a != 0); } }, { "sltz", +[](u64 a) { return (u64)((i64)a < 0); } }, { "sgtz", +[](u64 a) { return (u64)((i64)a > 0); } },
        { "clz", +[](u64 a) { return (u64)(a ? __builtin_clzll(a) : 64); } }, { "ctz", +[](u64 a) { return (u64)(a ? __builtin_ctzll(a) : 64); } }, { "clzw", +[](u64 a) { return (u64)((u32)a ? __builtin_clz((u32)a) : 32); } }, { "ctzw", +[](u64 a) { return (u64)((u32)a ? __builtin_ctz((u32)a) : 32); } } };
    if(auto i = un.find(m); i != un.end()) { need(2); int d = rvReg(o[0]), a = rvReg(o[1]); auto f = i->second; I.ex = [=] { wr(d, f(R[a])); }; return; }
    if(m == "li") { need(2); int d = rvReg(o[0]); i64 v = num(o[1]); I.ex = [=] { wr(d, (u64)v); }; return; }
    if(m == "lui") { need(2); int d = rvReg(o[0]); i64 v = rvImm(o[1], idx); I.ex = [=] { wr(d, sx((u32)v << 12)); }; return; }
    if(m == "auipc") { need(2); int d = rvReg(o[0]); i64 v = rvImm(o[1], idx); I.ex = [=] { wr(d, taddr(idx) + (u64)(v << 12)); }; return; }
    if(m == "la" || m == "lla") { need(2); int d = rvReg(o[0]); u64 v = addrOf(o[1]); I.ex = [=] { wr(d, v); }; return; }
    if(m == "lw" || m == "ld" || m == "lbu" || m == "lb" || m == "lh" || m == "lhu" || m == "lwu") { need(2); int d = rvReg(o[0]), b; i64 f; memop(o[1], f, b); int k = m == "lw" ? 0 : m == "ld" ? 1 : m == "lbu" ? 2 : m == "lb" ? 3 : m == "lh" ? 4 : m == "lhu" ? 5 : 6;
        I.ex = [=] { u64 a = R[b] + (u64)f; wr(d, k == 0 ? sx(ld<u32>(a)) : k == 1 ? ld<u64>(a) : k == 2 ? ld<uint8_t>(a) : k == 3 ? (u64)(i64)ld<int8_t>(a) : k == 4 ? (u64)(i64)ld<int16_t>(a) : k == 5 ? ld<uint16_t>(a) : ld<u32>(a)); }; return; }
    if(m == "sw" || m == "sd" || m == "sb" || m == "sh") { need(2); int d = rvReg(o[0]), b; i64 f; memop(o[1], f, b); char k = m[1]; I.ex = [=] { u64 a = R[b] + (u64)f; if(k == 'w') st<u32>(a, (u32)R[d]); else if(k == 'd') st<u64>(a, R[d]); else if(k == 'b') st<uint8_t>(a, (uint8_t)R[d]); else st<uint16_t>(a, (uint16_t)R[d]); }; return; }
    if(m == "flw" || m == "fsw") { need(2); int d = rvF(o[0]), b; i64 f; memop(o[1], f, b); if(m == "flw") I.ex = [=] { setF(d, ld<u32>(R[b] + (u64)f)); }; else I.ex = [=] { st<u32>(R[b] + (u64)f, (u32)F[d]); }; return; }
    if(m == "fsd" || m == "fld") { need(2); int d = rvF(o[0]), b; i64 f; memop(o[1], f, b); if(m == "fld") I.ex = [=] { F[d] = ld<u64>(R[b] + (u64)f); }; else I.ex = [=] { st<u64>(R[b] + (u64)f, F[d]); }; return; }
    if(m == "fadd.s" || m == "fsub.s" || m == "fmul.s" || m == "fdiv.s" || m == "fmin.s" || m == "fmax.s" || m == "fsgnj.s" || m == "fsgnjn.s" || m == "fsgnjx.s") { if(o.size() != 3) need(3); int d = rvF(o[0]), a = rvF(o[1]), b = rvF(o[2]); string k = m;
        if(k == "fadd.s") I.ex = [=] { setF(d, b32(f32(getF(a)) + f32(getF(b)))); }; else if(k == "fsub.s") I.ex = [=] { setF(d, b32(f32(getF(a)) - f32(getF(b)))); }; else if(k == "fmul.s") I.ex = [=] { setF(d, b32(f32(getF(a)) * f32(getF(b)))); }; else if(k == "fdiv.s") I.ex = [=] { setF(d, b32(f32(getF(a)) / f32(getF(b)))); };
        else if(k == "fmin.s") I.ex = [=] { setF(d, b32(fminf(f32(getF(a)), f32(getF(b))))); }; else if(k == "fmax.s") I.ex = [=] { setF(d, b32(fmaxf(f32(getF(a)), f32(getF(b))))); };
        else if(k == "fsgnj.s") I.ex = [=] { setF(d, (getF(a) & 0x7fffffff) | (getF(b) & 0x80000000)); }; else if(k == "fsgnjn.s") I.ex = [=] { setF(d, (getF(a) & 0x7fffffff) | (~getF(b) & 0x80000000)); }; else I.ex = [=] { setF(d, getF(a) ^ (getF(b) & 0x80000000)); };
        return; }
    if(m == "fmadd.s" || m == "fmsub.s" || m == "fnmsub.s" || m == "fnmadd.s") { need(4); int d = rvF(o[0]), a = rvF(o[1]), b = rvF(o[2]), c = rvF(o[3]); string k = m; I.ex = [=] { float x = f32(getF(a)), y = f32(getF(b)), z = f32(getF(c)); setF(d, b32(k == "fmadd.s" ? fmaf(x, y, z) : k == "fmsub.s" ? fmaf(x, y, -z) : k == "fnmsub.s" ? fmaf(-x, y, z) : -fmaf(x, y, z))); }; return; }
    if(m == "fmv.s" || m == "fneg.s" || m == "fabs.s" || m == "fsqrt.s") { need(2); int d = rvF(o[0]), a = rvF(o[1]); if(m == "fmv.s") I.ex = [=] { setF(d, getF(a)); }; else if(m == "fneg.s") I.ex = [=] { setF(d, getF(a) ^ 0x80000000); }; else if(m == "fabs.s") I.ex = [=] { setF(d, getF(a) & 0x7fffffff); }; else I.ex = [=] { setF(d, b32(sqrtf(f32(getF(a))))); }; return; }
    if(m == "feq.s" || m == "flt.s" || m == "fle.s" || m == "fgt.s" || m == "fge.s") { need(3); int d = rvReg(o[0]), a = rvF(o[1]), b = rvF(o[2]); if(m == "feq.s") I.ex = [=] { wr(d, f32(getF(a)) == f32(getF(b))); }; else if(m == "flt.s") I.ex = [=] { wr(d, f32(getF(a)) < f32(getF(b))); }; else if(m == "fle.s") I.ex = [=] { wr(d, f32(getF(a)) <= f32(getF(b))); }; else if(m == "fgt.s") I.ex = [=] { wr(d, f32(getF(a)) > f32(getF(b))); }; else I.ex = [=] { wr(d, f32(getF(a)) >= f32(getF(b))); }; return; }
    if(m == "fmv.w.x" || m == "fmv.s.x") { need(2); int d = rvF(o[0]), a = rvReg(o[1]); I.ex = [=] { setF(d, (u32)R[a]); }; return; }
    if(m == "fmv.x.w" || m == "fmv.x.s") { need(2); int d = rvReg(o[0]), a = rvF(o[1]); I.ex = [=] { wr(d, sx((u32)F[a])); }; return; }
    if(m == "fcvt.s.w" || m == "fcvt.s.l") { if(o.size() < 2) need(2); int d = rvF(o[0]), a = rvReg(o[1]); bool l = m.back() == 'l'; I.ex = [=] { setF(d, b32(l ? (float)(i64)R[a] : (float)(i32)R[a])); }; return; }
    if(m == "fcvt.w.s") { bool rtz = o.size() == 3 && o[2] == "rtz"; if(!rtz && o.size() != 2) unsupported(I.text); int d = rvReg(o[0]), a = rvF(o[1]); I.ex = [=] { wr(d, sx((u32)cvtws(f32(getF(a)), rtz))); }; return; }
    if(m == "j" || m == "tail") { need(1); I.ex = callTo(o[0], -1); if(hooks.count(o[0])) unsupported("tail call into the library"); return; }
    if(m == "jal" || m == "call") { if(o.size() == 1) { I.ex = callTo(o[0], 1); return; } need(2); I.ex = callTo(o[1], rvReg(o[0])); return; }
    if(m == "ret") { I.ex = [] { jumpReg(R[1]); }; return; }
    if(m == "jr") { need(1); int a = rvReg(o[0]); I.ex = [=] { jumpReg(R[a]); }; return; }
    if(m == "nop" || m == "fence") { I.ex = [] {}; return; }
    unsupported("instruction " + I.text);
}

// ------------------------------------------------------------------ ARM
static int armReg(const string& s) {
    if(s == "sp") return 13; if(s == "lr") return 14; if(s == "pc") return 15; if(s == "ip") return 12; if(s == "fp") return 11; if(s == "sl") return 10; if(s == "sb") return 9;
    if(s.size() >= 2 && s[0] == 'r' && isnum(s.substr(1))) { int r = (int)num(s.substr(1)); if(r >= 0 && r <= 15) return r; }
    return -1;
}
static int armR(const string& s) { int r = armReg(s); if(r < 0) unsupported("register " + s); return r; }
static int armS(const string& s) { if(s.size() >= 2 && s[0] == 's' && isnum(s.substr(1))) { int r = (int)num(s.substr(1)); if(r >= 0 && r < 32) return r; } unsupported("register " + s); }
static bool armCond(int c) {
    switch(c) { case 0: return CZ; case 1: return !CZ; case 2: return CC; case 3: return !CC; case 4: return CN; case 5: return !CN; case 6: return CV; case 7: return !CV;
        case 8: return CC && !CZ; case 9: return !CC || CZ; case 10: return CN == CV; case 11: return CN != CV; case 12: return !CZ && CN == CV; case 13: return CZ || CN != CV; default: return true; } }
static int condOf(const string& s) {
    static const unordered_map<string, int> m = { { "eq", 0 }, { "ne", 1 }, { "cs", 2 }, { "hs", 2 }, { "cc", 3 }, { "lo", 3 }, { "mi", 4 }, { "pl", 5 }, { "vs", 6 }, { "vc", 7 }, { "hi", 8 }, { "ls", 9 }, { "ge", 10 }, { "lt", 11 }, { "gt", 12 }, { "le", 13 }, { "al", 14 }, { "", 14 } };
    auto i = m.find(s); return i == m.end() ? -1 : i->second;
}
static u32 addC(u32 a, u32 b, u32 c, bool set) { u64 s = (u64)a + b + c; u32 r = (u32)s; if(set) { CN = r >> 31; CZ = r == 0; CC = s >> 32; CV = ((a ^ r) & (b ^ r)) >> 31; } return r; }
struct Op2 { int kind; u32 imm; int rm; int sh; int amt; int rs; };  // 0 imm, 1 reg shifted by imm, 2 reg shifted by reg
static u32 op2(const Op2& o, bool& c) {
    c = CC;
    if(o.kind == 0) { if(o.imm > 255) c = o.imm >> 31; return o.imm; }
    u32 v = (u32)R[o.rm]; u32 a = o.kind == 2 ? (u32)R[o.rs] & 255 : (u32)o.amt;
    if(o.kind == 2 && a == 0) return v;
    switch(o.sh) {
        case 0: if(!a) return v; c = a <= 32 ? (v >> (32 - a)) & 1 : 0; return a >= 32 ? 0 : v << a;
        case 1: if(!a) return v; c = a <= 32 ? (v >> (a - 1)) & 1 : 0; return a >= 32 ? 0 : v >> a;
        case 2: if(!a) return v; if(a >= 32) { c = v >> 31; return (u32)((i32)v >> 31); } c = (v >> (a - 1)) & 1; return (u32)((i32)v >> a);
        default: a &= 31; if(!a) { c = v >> 31; return v; } c = (v >> (a - 1)) & 1; return v >> a | v << (32 - a);
    }
}
static u32 armImm(const string& s0) {
    string s = s0; if(!s.empty() && s[0] == '#') s = s.substr(1);
    if(s.compare(0, 9, ":lower16:") == 0) return (u32)addrOf(s.substr(9)) & 0xffff;
    if(s.compare(0, 9, ":upper16:") == 0) return (u32)addrOf(s.substr(9)) >> 16;
    return (u32)num(s);
}
static int shiftKind(const string& s) { return s == "lsl" ? 0 : s == "lsr" ? 1 : s == "asr" ? 2 : s == "ror" ? 3 : -1; }
static void parseShift(const string& t, Op2& r) {
    istringstream ss(t); string k, a; ss >> k >> a; r.sh = shiftKind(k); if(r.sh < 0) unsupported("shift " + t);
    if(!a.empty() && a[0] == '#') { r.kind = 1; r.amt = (int)num(a.substr(1)); } else { r.kind = 2; r.rs = armR(a); } }
static Op2 parseOp2(const vector<string>& o, size_t i) {
    Op2 r{}; if(i >= o.size()) unsupported("operand missing");
    if(o[i][0] == '#' || isnum(o[i])) { r.kind = 0; r.imm = armImm(o[i]); if(o.size() != i + 1) unsupported("too many operands"); return r; }
    r.kind = 1; r.rm = armR(o[i]);
    if(o.size() == i + 2) parseShift(o[i + 1], r); else if(o.size() != i + 1) unsupported("too many operands");
    return r;
}
struct AMem { int base; bool reg; int rm; Op2 sh; i64 imm; bool wb; bool post; };
static AMem armMem(const vector<string>& o, size_t i) {
    AMem a{}; string s = o.at(i); a.wb = s.back() == '!'; if(a.wb) s.pop_back();
    if(s.front() != '[' || s.back() != ']') unsupported("memory operand " + s);
    auto in = splitOps(s.substr(1, s.size() - 2)); a.base = armR(in.at(0));
    if(in.size() >= 2) { if(in[1][0] == '#') a.imm = num(in[1].substr(1)); else { string r = in[1]; a.imm = 1; if(r[0] == '-') { a.imm = -1; r = r.substr(1); } a.reg = true; a.rm = armR(r); a.sh.kind = 1; a.sh.rm = a.rm; if(in.size() == 3) parseShift(in[2], a.sh); } }
    if(o.size() == i + 2) { a.post = true; a.wb = true; if(o[i + 1][0] != '#') unsupported("post index"); a.imm = num(o[i + 1].substr(1)); }
    return a;
}
static u64 armAddr(const AMem& a) {
    u32 off; bool c; if(a.reg) { off = op2(a.sh, c); if(a.imm < 0) off = 0 - off; } else off = (u32)a.imm;
    u32 b = (u32)R[a.base]; u32 e = a.post ? b : b + off; if(a.wb) R[a.base] = b + off; return e; }
static vector<int> regList(const string& s, bool flt) {
    vector<int> r; if(s.front() != '{' || s.back() != '}') unsupported("register list " + s);
    for(auto& x : splitOps(s.substr(1, s.size() - 2))) { size_t d = x.find('-'); auto R1 = [&](const string& y) { return flt ? armS(trim(y)) : armR(trim(y)); };
        if(d == string::npos) r.push_back(R1(x)); else for(int k = R1(x.substr(0, d)); k <= R1(x.substr(d + 1)); ++k) r.push_back(k); }
    return r;
}
static void decodeARM(Insn& I, u64) {
    auto& o = I.op; string m = I.mn; int cond = 14; bool S = false; string suf;
    size_t dot = m.find('.'); if(dot != string::npos) { suf = m.substr(dot); m = m.substr(0, dot); }
    static const vector<string> bases = { "smmulr", "smmlar", "smmul", "smmla", "smmls", "smull", "umull", "smlal", "umlal", "vmov", "vcvt", "vcmp", "vcmpe", "vadd", "vsub", "vmul", "vdiv", "vneg", "vabs", "vmla", "vmls", "vnmul", "vfma", "vfms", "vldr", "vstr", "vmrs", "vpush", "vpop", "vsqrt", "push", "pop", "ldrsb", "ldrsh", "ldrb", "ldrh", "ldrd", "strd", "strb", "strh", "ldr", "str", "movw", "movt", "mov", "mvn", "mul", "mla", "mls", "sdiv", "udiv", "add", "adc", "sub", "sbc", "rsb", "rsc", "and", "orr", "eor", "bic", "cmp", "cmn", "tst", "teq", "lsl", "lsr", "asr", "ror", "clz", "rbit", "sxtb", "uxtb", "sxth", "uxth", "blx", "bx", "bl", "b", "nop", "smulbb", "ubfx", "sbfx", "dmb" };
    string base; 
    for(auto& b : bases) if(m.compare(0, b.size(), b) == 0) {
        string r = m.substr(b.size()); bool s = false; int c = condOf(r);
        if(c < 0 && !r.empty() && r[0] == 's') { s = true; c = condOf(r.substr(1)); }
        if(c < 0 && r.size() == 3 && r[2] == 's') { s = true; c = condOf(r.substr(0, 2)); }
        if(c < 0 || (s && b[0] == 'b' && b != "bic")) continue;       // "bls" is b<ls>, not bl<s>
        if(b.size() > base.size()) { base = b; cond = c; S = s; } }
    if(base.empty()) unsupported("instruction " + I.text);
    const string& k = base;
    function<void()> f;
    auto need = [&](size_t n) { if(o.size() != n) unsupported("operands of " + I.text); };
    static const unordered_map<string, int> dp = { { "add", 0 }, { "sub", 1 }, { "rsb", 2 }, { "adc", 3 }, { "sbc", 4 }, { "and", 5 }, { "orr", 6 }, { "eor", 7 }, { "bic", 8 }, { "rsc", 9 } };
    if(auto it = dp.find(k); it != dp.end()) {
        auto q = o; int d = armR(q.at(0)); int n; size_t at;
        if(q.size() == 2 || armReg(q.at(1)) < 0) { n = d; at = 1; } else if(q.size() == 3 && shiftKind(q[2].substr(0, 3)) >= 0 && armReg(q[2]) < 0 && q[2][0] != '#') { n = d; at = 1; } else { n = armR(q[1]); at = 2; }
        Op2 p = parseOp2(q, at); int op = it->second; bool s = S; if(s && op >= 5 && op <= 8) ++knownSites;
        f = [=] { bool c; u32 a = (u32)R[n]; u32 b = op2(p, c); u32 r;
            switch(op) { case 0: r = addC(a, b, 0, s); break; case 1: r = addC(a, ~b, 1, s); break; case 2: r = addC(~a, b, 1, s); break; case 3: r = addC(a, b, CC, s); break; case 4: r = addC(a, ~b, CC, s); break; case 9: r = addC(~a, b, CC, s); break;
                case 5: r = a & b; break; case 6: r = a | b; break; case 7: r = a ^ b; break; default: r = a & ~b; }
            if(s && op >= 5 && op <= 8) { CN = r >> 31; CZ = !r; CC = c; if(knownMode) CV = false; }
            if(d == 15) jumpReg(r); else R[d] = r; };
    } else if(k == "mov" || k == "mvn" || k == "movw") { int d = armR(o.at(0)); Op2 p = parseOp2(o, 1); bool n = k == "mvn", s = S; if(s) ++knownSites; if(k == "movw" && (p.kind || p.imm > 0xffff)) unsupported(I.text);
        f = [=] { bool c; u32 v = op2(p, c); if(n) v = ~v; if(s) { CN = v >> 31; CZ = !v; CC = c; if(knownMode) CV = false; } if(d == 15) jumpReg(v); else R[d] = v; }; }
    else if(k == "movt") { need(2); int d = armR(o[0]); u32 v = armImm(o[1]); f = [=] { R[d] = ((u32)R[d] & 0xffff) | v << 16; }; }
    else if(k == "cmp" || k == "cmn" || k == "tst" || k == "teq") { int n = armR(o.at(0)); Op2 p = parseOp2(o, 1); int op = k == "cmp" ? 0 : k == "cmn" ? 1 : k == "tst" ? 2 : 3;
        f = [=] { bool c; u32 b = op2(p, c), a = (u32)R[n]; if(op == 0) addC(a, ~b, 1, true); else if(op == 1) addC(a, b, 0, true); else { u32 r = op == 2 ? a & b : a ^ b; CN = r >> 31; CZ = !r; CC = c; } }; }
    else if(k == "lsl" || k == "lsr" || k == "asr" || k == "ror") { int d = armR(o.at(0)); size_t at = o.size() == 3 ? 1 : 0; Op2 p{}; p.rm = armR(o.at(at)); p.sh = shiftKind(k); const string& a = o.at(at + 1); if(a[0] == '#') { p.kind = 1; p.amt = (int)num(a.substr(1)); } else { p.kind = 2; p.rs = armR(a); } bool s = S;
        f = [=] { bool c; u32 v = op2(p, c); if(s) { CN = v >> 31; CZ = !v; CC = c; } R[d] = v; }; }
    else if(k == "mul") { int d = armR(o.at(0)), a = armR(o.at(1)), b = o.size() == 3 ? armR(o[2]) : d; bool s = S; f = [=] { u32 v = (u32)R[a] * (u32)R[b]; if(s) { CN = v >> 31; CZ = !v; } R[d] = v; }; }
    else if(k == "mla" || k == "mls") { need(4); int d = armR(o[0]), a = armR(o[1]), b = armR(o[2]), c = armR(o[3]); bool sub = k == "mls"; f = [=] { u32 p = (u32)R[a] * (u32)R[b]; R[d] = (u32)(sub ? (u32)R[c] - p : (u32)R[c] + p); }; }
    else if(k == "smmul" || k == "smmulr") { need(3); int d = armR(o[0]), a = armR(o[1]), b = armR(o[2]); u64 r = k == "smmulr" ? 0x80000000ULL : 0; f = [=] { R[d] = (u32)(((u64)((i64)(i32)R[a] * (i32)R[b]) + r) >> 32); }; }
    else if(k == "smmla" || k == "smmls" || k == "smmlar") { need(4); int d = armR(o[0]), a = armR(o[1]), b = armR(o[2]), c = armR(o[3]); bool sub = k == "smmls"; u64 r = k == "smmlar" ? 0x80000000ULL : 0; f = [=] { u64 acc = (u64)(u32)R[c] << 32; u64 p = (u64)((i64)(i32)R[a] * (i32)R[b]); R[d] = (u32)(((sub ? acc - p : acc + p) + r) >> 32); }; }
    else if(k == "smull" || k == "umull") { need(4); int l = armR(o[0]), h = armR(o[1]), a = armR(o[2]), b = armR(o[3]); bool s = k[0] == 's'; f = [=] { u64 p = s ? (u64)((i64)(i32)R[a] * (i32)R[b]) : (u64)(u32)R[a] * (u32)R[b]; R[l] = (u32)p; R[h] = p >> 32; }; }
    else if(k == "smlal" || k == "umlal") { need(4); int l = armR(o[0]), h = armR(o[1]), a = armR(o[2]), b = armR(o[3]); bool s = k[0] == 's'; f = [=] { u64 p = s ? (u64)((i64)(i32)R[a] * (i32)R[b]) : (u64)(u32)R[a] * (u32)R[b]; p += (u64)(u32)R[h] << 32 | (u32)R[l]; R[l] = (u32)p; R[h] = p >> 32; }; }
    else if(k == "sdiv" || k == "udiv") { need(3); int d = armR(o[0]), a = armR(o[1]), b = armR(o[2]); bool s = k[0] == 's'; f = [=] { u32 x = (u32)R[a], y = (u32)R[b]; R[d] = !y ? 0 : s ? (x == 0x80000000u && y == ~0u ? x : (u32)((i32)x / (i32)y)) : x / y; }; }
    else if(k == "clz") { need(2); int d = armR(o[0]), a = armR(o[1]); f = [=] { R[d] = (u32)R[a] ? (u32)__builtin_clz((u32)R[a]) : 32; }; }
    else if(k == "sxtb" || k == "uxtb" || k == "sxth" || k == "uxth") { need(2); int d = armR(o[0]), a = armR(o[1]); string q = k; f = [=] { u32 v = (u32)R[a]; R[d] = (u32)(q == "sxtb" ? (u32)(i32)(int8_t)v : q == "uxtb" ? (v & 255) : q == "sxth" ? (u32)(i32)(int16_t)v : (v & 65535)); }; }
    else if(k == "ubfx" || k == "sbfx") { need(4); int d = armR(o[0]), a = armR(o[1]); u32 l = armImm(o[2]), w = armImm(o[3]); bool s = k[0] == 's'; f = [=] { u32 v = (u32)R[a] << (32 - l - w); R[d] = s ? (u32)((i32)v >> (32 - w)) : v >> (32 - w); }; }
    else if(k == "ldr" || k == "ldrb" || k == "ldrh" || k == "ldrsb" || k == "ldrsh") { int d = armR(o.at(0)); AMem a = armMem(o, 1); string q = k; int t = q == "ldr" ? 0 : q == "ldrb" ? 1 : q == "ldrh" ? 2 : q == "ldrsb" ? 3 : 4;
        f = [=] { u64 e = armAddr(a); u32 v = t == 0 ? ld<u32>(e) : t == 1 ? ld<uint8_t>(e) : t == 2 ? ld<uint16_t>(e) : t == 3 ? (u32)(i32)ld<int8_t>(e) : (u32)(i32)ld<int16_t>(e); if(d == 15) jumpReg(v); else R[d] = v; }; }
    else if(k == "str" || k == "strb" || k == "strh") { int d = armR(o.at(0)); AMem a = armMem(o, 1); int t = k == "str" ? 0 : k == "strb" ? 1 : 2; f = [=] { u32 v = (u32)R[d]; u64 e = armAddr(a); if(t == 0) st<u32>(e, v); else if(t == 1) st<uint8_t>(e, (uint8_t)v); else st<uint16_t>(e, (uint16_t)v); }; }
    else if(k == "ldrd" || k == "strd") { int d = armR(o.at(0)), d2 = armR(o.at(1)); AMem a = armMem(o, 2); bool l = k == "ldrd"; f = [=] { u64 e = armAddr(a); if(l) { u32 x = ld<u32>(e), y = ld<u32>(e + 4); R[d] = x; R[d2] = y; } else { st<u32>(e, (u32)R[d]); st<u32>(e + 4, (u32)R[d2]); } }; }
    else if(k == "push") { need(1); auto l = regList(o[0], false); sort(l.begin(), l.end()); f = [=] { u64 sp = R[13] - 4 * l.size(); for(size_t i = 0; i < l.size(); ++i) st<u32>(sp + 4 * i, (u32)R[l[i]]); R[13] = (u32)sp; }; }
    else if(k == "pop") { need(1); auto l = regList(o[0], false); sort(l.begin(), l.end()); f = [=] { u64 sp = R[13]; bool j = false; u32 t = 0; for(size_t i = 0; i < l.size(); ++i) { u32 v = ld<u32>(sp + 4 * i); if(l[i] == 15) { j = true; t = v; } else R[l[i]] = v; } R[13] = (u32)(sp + 4 * l.size()); if(j) jumpReg(t); }; }
    else if(k == "vpush") { need(1); auto l = regList(o[0], true); for(size_t i = 1; i < l.size(); ++i) if(l[i] != l[i - 1] + 1) fault("vpush list not contiguous"); f = [=] { u64 sp = R[13] - 4 * l.size(); for(size_t i = 0; i < l.size(); ++i) st<u32>(sp + 4 * i, (u32)F[l[i]]); R[13] = (u32)sp; }; }
    else if(k == "vpop") { need(1); auto l = regList(o[0], true); for(size_t i = 1; i < l.size(); ++i) if(l[i] != l[i - 1] + 1) fault("vpop list not contiguous"); f = [=] { u64 sp = R[13]; for(size_t i = 0; i < l.size(); ++i) F[l[i]] = ld<u32>(sp + 4 * i); R[13] = (u32)(sp + 4 * l.size()); }; }
    else if(k == "vldr" || k == "vstr") { need(2); int d = armS(o[0]); AMem a = armMem(o, 1); if(k == "vldr") f = [=] { F[d] = ld<u32>(armAddr(a)); }; else f = [=] { st<u32>(armAddr(a), (u32)F[d]); }; }
    else if(k == "vmov") { need(2); if(armReg(o[0]) >= 0) { int d = armR(o[0]), a = armS(o[1]); f = [=] { R[d] = (u32)F[a]; }; } else { int d = armS(o[0]); if(o[1][0] == '#') { u32 v = b32((float)strtod(o[1].c_str() + 1, 0)); f = [=] { F[d] = v; }; } else if(armReg(o[1]) >= 0) { int a = armR(o[1]); f = [=] { F[d] = (u32)R[a]; }; } else { int a = armS(o[1]); f = [=] { F[d] = F[a]; }; } } }
    else if(k == "vadd" || k == "vsub" || k == "vmul" || k == "vdiv" || k == "vnmul") { need(3); if(suf != ".f32") unsupported(I.text); int d = armS(o[0]), a = armS(o[1]), b = armS(o[2]); int t = k == "vadd" ? 0 : k == "vsub" ? 1 : k == "vmul" ? 2 : k == "vdiv" ? 3 : 4;
        f = [=] { float x = f32((u32)F[a]), y = f32((u32)F[b]); F[d] = b32(t == 0 ? x + y : t == 1 ? x - y : t == 2 ? x * y : t == 3 ? x / y : -(x * y)); }; }
    else if(k == "vmla" || k == "vmls" || k == "vfma" || k == "vfms") { need(3); int d = armS(o[0]), a = armS(o[1]), b = armS(o[2]); bool fused = k[1] == 'f', sub = k.back() == 's'; f = [=] { float x = f32((u32)F[a]), y = f32((u32)F[b]), z = f32((u32)F[d]); if(sub) x = -x; F[d] = b32(fused ? fmaf(x, y, z) : z + (float)(x * y)); }; }
    else if(k == "vneg" || k == "vabs" || k == "vsqrt") { need(2); int d = armS(o[0]), a = armS(o[1]); int t = k == "vneg" ? 0 : k == "vabs" ? 1 : 2; f = [=] { F[d] = t == 0 ? (u32)F[a] ^ 0x80000000u : t == 1 ? (u32)F[a] & 0x7fffffffu : b32(sqrtf(f32((u32)F[a]))); }; }
    else if(k == "vcvt") { need(2); int d = armS(o[0]), a = armS(o[1]); if(suf == ".f32.s32") f = [=] { F[d] = b32((float)(i32)(u32)F[a]); }; else if(suf == ".s32.f32") f = [=] { float x = f32((u32)F[a]); F[d] = x != x ? 0 : (u32)cvtws(x, true); }; else unsupported(I.text); }
    else if(k == "vcmp" || k == "vcmpe") { need(2); int a = armS(o[0]); int b = -1; if(o[1][0] != '#') b = armS(o[1]); f = [=] { float x = f32((u32)F[a]), y = b < 0 ? 0.0f : f32((u32)F[b]); if(x != x || y != y) { FN_ = FZ = false; FCf = FVf = true; } else { FN_ = x < y; FZ = x == y; FCf = x >= y; FVf = false; } }; }
    else if(k == "vmrs") { f = [] { CN = FN_; CZ = FZ; CC = FCf; CV = FVf; }; }
    else if(k == "b") { need(1); u64 t = label(o[0]); f = [=] { branchTo(t); }; }
    else if(k == "bl") { need(1); f = callTo(o[0], 14); }
    else if(k == "bx") { need(1); int a = armR(o[0]); f = [=] { jumpReg(R[a]); }; }
    else if(k == "blx") { need(1); int a = armReg(o[0]); if(a < 0) f = callTo(o[0], 14); else f = [=] { u64 t = R[a]; R[14] = taddr(npc); jumpReg(t); }; }
    else if(k == "nop" || k == "dmb") f = [] {};
    else unsupported("instruction " + I.text);
    if(cond == 14) I.ex = f; else { int c = cond; I.ex = [=] { if(armCond(c)) f(); }; }
}

// ------------------------------------------------------------------ MIPS
static int mReg(const string& s) {
    static const unordered_map<string, int> m = [] { unordered_map<string, int> m; const char* n[] = { "zero", "at", "v0", "v1", "a0", "a1", "a2", "a3", "t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "t8", "t9", "k0", "k1", "gp", "sp", "fp", "ra" };
        for(int i = 0; i < 32; ++i) { m[string("$") + n[i]] = i; m["$" + to_string(i)] = i; } m["$s8"] = 30; return m; }();
    auto i = m.find(s); if(i == m.end()) unsupported("register " + s); return i->second;
}
static int mF(const string& s) { if(s.size() > 2 && s[0] == '$' && s[1] == 'f' && isnum(s.substr(2))) { int r = (int)num(s.substr(2)); if(r < 32) return r; } unsupported("register " + s); }
static bool inDelay, pendingJump; static u64 pendingTarget; static bool jumpTaken;
static void mBranch(u64 t) { if(inDelay) fault("branch in a delay slot"); pendingJump = true; pendingTarget = t; }
// -known (KF9): `a < b` before a branch is computed as the sign of a - b; the exact difference is kept beside the register
// (and a spilled word) when the subtraction overflowed, and the sign branches read it
static unordered_map<u64, i64> exactMem;
static void mw(int d, u32 v) { if(d) R[d] = v, hasExact[d] = false; }
static void mwExact(int d, i64 r) { mw(d, (u32)r); if(d && r != (i32)r) exact[d] = r, hasExact[d] = true; }
static i64 mImm(const string& s) {
    if(s.compare(0, 4, "%hi(") == 0) { u32 a = (u32)addrOf(s.substr(4, s.size() - 5)); return (a + 0x8000) >> 16; }
    if(s.compare(0, 4, "%lo(") == 0) { u32 a = (u32)addrOf(s.substr(4, s.size() - 5)); return (int16_t)(a & 0xffff); }
    return num(s);
}
static bool s16(i64 v) { return v >= -32768 && v <= 32767; }
static bool u16(i64 v) { return v >= 0 && v <= 65535; }
static void decodeMIPS(Insn& I, u64) {
    auto& o = I.op; const string& m = I.mn;
    auto need = [&](size_t n) { if(o.size() != n) unsupported("operands of " + I.text); };
    auto range = [&](bool ok) { if(!ok) fault("immediate out of range: " + I.text); };
    auto memop = [&](const string& s, i64& off, int& base) { size_t p = s.rfind('('); if(p == string::npos) unsupported("memory operand " + s); base = mReg(s.substr(p + 1, s.size() - p - 2)); string q = trim(s.substr(0, p)); off = q.empty() ? 0 : mImm(q); range(s16(off)); };
    typedef u32 (*B2)(u32, u32);
    static const unordered_map<string, B2> rrr = { { "addu", +[](u32 a, u32 b) { return a + b; } }, { "subu", +[](u32 a, u32 b) { return a - b; } }, { "and", +[](u32 a, u32 b) { return a & b; } }, { "or", +[](u32 a, u32 b) { return a | b; } }, { "xor", +[](u32 a, u32 b) { return a ^ b; } }, { "nor", +[](u32 a, u32 b) { return ~(a | b); } },
        { "slt", +[](u32 a, u32 b) { return (u32)((i32)a < (i32)b); } }, { "sltu", +[](u32 a, u32 b) { return (u32)(a < b); } }, { "sllv", +[](u32 a, u32 b) { return a << (b & 31); } }, { "srlv", +[](u32 a, u32 b) { return a >> (b & 31); } }, { "srav", +[](u32 a, u32 b) { return (u32)((i32)a >> (b & 31)); } }, { "mul", +[](u32 a, u32 b) { return a * b; } } };
    if(auto i = rrr.find(m); i != rrr.end()) { need(3); int d = mReg(o[0]), a = mReg(o[1]), b = mReg(o[2]); B2 f = i->second; if(m == "addu" || m == "subu") { bool sub = m == "subu"; I.ex = [=] { i64 x = (i32)R[a], y = (i32)R[b]; mwExact(d, sub ? x - y : x + y); }; return; }
        I.ex = [=] { mw(d, f((u32)R[a], (u32)R[b])); }; return; }
    if(m == "add" || m == "sub" || m == "addi") { need(3); int d = mReg(o[0]), a = mReg(o[1]); int b = m == "addi" ? -1 : mReg(o[2]); i64 v = b < 0 ? mImm(o[2]) : 0; range(s16(v)); bool s = m == "sub"; I.ex = [=] { i64 y = b < 0 ? v : (i64)(i32)R[b]; i64 r = s ? (i64)(i32)R[a] - y : (i64)(i32)R[a] + y; if(r != (i32)r) fault("arithmetic overflow trap"); mw(d, (u32)r); }; return; }
    if(m == "addiu" || m == "slti" || m == "sltiu" || m == "andi" || m == "ori" || m == "xori") { need(3); int d = mReg(o[0]), a = mReg(o[1]); i64 v = mImm(o[2]); bool lg = m == "andi" || m == "ori" || m == "xori"; range(lg ? u16(v) : s16(v)); string k = m;
        int t = k == "addiu" ? 0 : k == "slti" ? 1 : k == "sltiu" ? 2 : k == "andi" ? 3 : k == "ori" ? 4 : 5; if(!t) { I.ex = [=] { mwExact(d, (i64)(i32)R[a] + v); }; return; }
        I.ex = [=] { u32 x = (u32)R[a], y = (u32)v; mw(d, t == 0 ? x + y : t == 1 ? (u32)((i32)x < (i32)y) : t == 2 ? (u32)(x < y) : t == 3 ? x & y : t == 4 ? x | y : x ^ y); }; return; }
    if(m == "sll" || m == "srl" || m == "sra") { need(3); int d = mReg(o[0]), a = mReg(o[1]); i64 v = num(o[2]); range(v >= 0 && v < 32); int t = m == "sll" ? 0 : m == "srl" ? 1 : 2; I.ex = [=] { u32 x = (u32)R[a]; mw(d, t == 0 ? x << v : t == 1 ? x >> v : (u32)((i32)x >> v)); }; return; }
    if(m == "move") { need(2); int d = mReg(o[0]), a = mReg(o[1]); I.ex = [=] { bool e = hasExact[a] && (u32)exact[a] == (u32)R[a]; i64 r = exact[a]; mw(d, (u32)R[a]); if(e) mwExact(d, r); }; return; }
    if(m == "negu" || m == "not") { need(2); int d = mReg(o[0]), a = mReg(o[1]); bool n = m == "not"; I.ex = [=] { mw(d, n ? ~(u32)R[a] : 0 - (u32)R[a]); }; return; }
    if(m == "li") { need(2); int d = mReg(o[0]); i64 v = num(o[1]); range(v >= -2147483648LL && v <= 4294967295LL); bool wide = !s16(v) && !u16(v) && (v & 0xffff); I.ex = [=] { if(wide && inDelay) fault("a pseudo instruction of two words in a delay slot"); mw(d, (u32)v); }; return; }
    if(m == "la") { need(2); int d = mReg(o[0]); u32 v = (u32)addrOf(o[1]); I.ex = [=] { if(inDelay) fault("la in a delay slot"); mw(d, v); }; return; }
    if(m == "lui") { need(2); int d = mReg(o[0]); i64 v = mImm(o[1]); range(u16(v)); I.ex = [=] { mw(d, (u32)v << 16); }; return; }
    if(m == "lw") { need(2); int d = mReg(o[0]), b; i64 f; memop(o[1], f, b); I.ex = [=] { u64 a = (u32)(R[b] + (u64)f); mw(d, ld<u32>(a)); if(!exactMem.empty()) if(auto i = exactMem.find(a); i != exactMem.end() && (u32)i->second == (u32)R[d]) mwExact(d, i->second); }; return; }
    if(m == "lb" || m == "lbu" || m == "lh" || m == "lhu") { need(2); int d = mReg(o[0]), b; i64 f; memop(o[1], f, b); int t = m == "lw" ? 0 : m == "lb" ? 1 : m == "lbu" ? 2 : m == "lh" ? 3 : 4; I.ex = [=] { u64 a = (u32)(R[b] + (u64)f); mw(d, t == 0 ? ld<u32>(a) : t == 1 ? (u32)(i32)ld<int8_t>(a) : t == 2 ? ld<uint8_t>(a) : t == 3 ? (u32)(i32)ld<int16_t>(a) : ld<uint16_t>(a)); }; return; }
    if(m == "sw" || m == "sb" || m == "sh") { need(2); int d = mReg(o[0]), b; i64 f; memop(o[1], f, b); char t = m[1]; I.ex = [=] { u64 a = (u32)(R[b] + (u64)f); u32 v = (u32)R[d]; if(t == 'w') { st<u32>(a, v); if(hasExact[d] && (u32)exact[d] == v) exactMem[a] = exact[d]; else if(!exactMem.empty()) exactMem.erase(a); } else if(t == 'b') st<uint8_t>(a, (uint8_t)v); else st<uint16_t>(a, (uint16_t)v); }; return; }
    if(m == "lwc1" || m == "swc1") { need(2); int d = mF(o[0]), b; i64 f; memop(o[1], f, b); if(m == "lwc1") I.ex = [=] { F[d] = ld<u32>((u32)(R[b] + (u64)f)); }; else I.ex = [=] { st<u32>((u32)(R[b] + (u64)f), (u32)F[d]); }; return; }
    if(m == "mult" || m == "multu") { need(2); int a = mReg(o[0]), b = mReg(o[1]); bool s = m == "mult"; I.ex = [=] { u64 p = s ? (u64)((i64)(i32)R[a] * (i32)R[b]) : (u64)(u32)R[a] * (u32)R[b]; LO = (u32)p; HI = p >> 32; }; return; }
    if(m == "div" || m == "divu") { int a, b; bool s = m == "div"; if(o.size() == 3) { if(mReg(o[0]) != 0) unsupported(I.text); a = mReg(o[1]); b = mReg(o[2]); } else { need(2); a = mReg(o[0]); b = mReg(o[1]); }
        I.ex = [=] { u32 x = (u32)R[a], y = (u32)R[b]; if(!y) { LO = rnd(); HI = rnd(); } else if(s) { if(x == 0x80000000u && y == ~0u) { LO = x; HI = 0; } else { LO = (u32)((i32)x / (i32)y); HI = (u32)((i32)x % (i32)y); } } else { LO = x / y; HI = x % y; } }; return; }
    if(m == "mflo" || m == "mfhi") { need(1); int d = mReg(o[0]); bool l = m == "mflo"; I.ex = [=] { mw(d, (u32)(l ? LO : HI)); }; return; }
    if(m == "movn" || m == "movz") { need(3); int d = mReg(o[0]), a = mReg(o[1]), b = mReg(o[2]); bool n = m == "movn"; I.ex = [=] { if(((u32)R[b] != 0) == n) mw(d, (u32)R[a]); }; return; }
    if(m == "movn.s" || m == "movz.s") { need(3); int d = mF(o[0]), a = mF(o[1]), b = mReg(o[2]); bool n = m == "movn.s"; I.ex = [=] { if(((u32)R[b] != 0) == n) F[d] = F[a]; }; return; }
    auto fcc = [&](const string& s) { string t = s; if(t.compare(0, 4, "$fcc") == 0) t = t.substr(4); if(!isnum(t)) unsupported(I.text); return (int)num(t); };
    if(m == "movt" || m == "movf") { int d = mReg(o.at(0)), a = mReg(o.at(1)); int c = o.size() > 2 ? fcc(o[2]) : 0; bool t = m == "movt"; I.ex = [=] { if(FCC[c] == t) mw(d, (u32)R[a]); }; return; }
    if(m == "movt.s" || m == "movf.s") { int d = mF(o.at(0)), a = mF(o.at(1)); int c = o.size() > 2 ? fcc(o[2]) : 0; bool t = m == "movt.s"; I.ex = [=] { if(FCC[c] == t) F[d] = F[a]; }; return; }
    if(m == "bc1t" || m == "bc1f") { int c = o.size() > 1 ? fcc(o[0]) : 0; u64 t = label(o.back()); bool k = m == "bc1t"; I.ex = [=] { if(FCC[c] == k) mBranch(t); else mBranch(~2ULL); }; return; }
    if(m == "mtc1") { need(2); int a = mReg(o[0]), d = mF(o[1]); I.ex = [=] { F[d] = (u32)R[a]; }; return; }
    if(m == "mfc1") { need(2); int d = mReg(o[0]), a = mF(o[1]); I.ex = [=] { mw(d, (u32)F[a]); }; return; }
    if(m == "mov.s" || m == "neg.s" || m == "abs.s") { need(2); int d = mF(o[0]), a = mF(o[1]); char t = m[0]; I.ex = [=] { F[d] = t == 'm' ? (u32)F[a] : t == 'n' ? (u32)F[a] ^ 0x80000000u : (u32)F[a] & 0x7fffffffu; }; return; }
    if(m == "add.s" || m == "sub.s" || m == "mul.s" || m == "div.s") { need(3); int d = mF(o[0]), a = mF(o[1]), b = mF(o[2]); char t = m[0]; I.ex = [=] { float x = f32((u32)F[a]), y = f32((u32)F[b]); F[d] = b32(t == 'a' ? x + y : t == 's' ? x - y : t == 'm' ? x * y : x / y); }; return; }
    if(m == "cvt.s.w") { need(2); int d = mF(o[0]), a = mF(o[1]); I.ex = [=] { F[d] = b32((float)(i32)(u32)F[a]); }; return; }
    if(m == "trunc.w.s") { need(2); int d = mF(o[0]), a = mF(o[1]); I.ex = [=] { F[d] = (u32)cvtws(f32((u32)F[a]), true); }; return; }
    if(m.compare(0, 2, "c.") == 0 && m.size() > 4 && m.compare(m.size() - 2, 2, ".s") == 0) { string c = m.substr(2, m.size() - 4); int at = o.size() == 3 ? 1 : 0; int cc = at ? fcc(o[0]) : 0; int a = mF(o.at(at)), b = mF(o.at(at + 1));
        int t = c == "eq" ? 2 : c == "ueq" ? 3 : c == "olt" || c == "lt" ? 4 : c == "ult" || c == "nge" ? 5 : c == "ole" || c == "le" ? 6 : c == "ule" || c == "ngt" ? 7 : c == "un" ? 1 : -1; if(t < 0) unsupported(I.text);
        I.ex = [=] { float x = f32((u32)F[a]), y = f32((u32)F[b]); FCC[cc] = ((t & 4) && x < y) || ((t & 2) && x == y) || ((t & 1) && (x != x || y != y)); }; return; }
    if(m == "beq" || m == "bne") { need(3); int a = mReg(o[0]), b = mReg(o[1]); u64 t = label(o[2]); bool e = m == "beq"; I.ex = [=] { mBranch(((u32)R[a] == (u32)R[b]) == e ? t : ~2ULL); }; return; }
    if(m == "blez" || m == "bgtz" || m == "bltz" || m == "bgez" || m == "beqz" || m == "bnez") { need(2); int a = mReg(o[0]); u64 t = label(o[1]); string k = m; int q = k == "blez" ? 0 : k == "bgtz" ? 1 : k == "bltz" ? 2 : k == "bgez" ? 3 : k == "beqz" ? 4 : 5; I.ex = [=] { i64 v = (i32)R[a]; if(q < 4 && hasExact[a] && (u32)exact[a] == (u32)R[a]) { ++knownSites; if(knownMode) v = exact[a]; } bool c = q == 0 ? v <= 0 : q == 1 ? v > 0 : q == 2 ? v < 0 : q == 3 ? v >= 0 : q == 4 ? v == 0 : v != 0; mBranch(c ? t : ~2ULL); }; return; }
    if(m == "b" || m == "j") { need(1); u64 t = label(o[0]); I.ex = [=] { mBranch(t); }; return; }
    if(m == "jr") { need(1); int a = mReg(o[0]); I.ex = [=] { u64 sv = npc; jumpReg(R[a]); u64 t = npc; npc = sv; mBranch(t); }; return; }
    if(m == "jal") { need(1); string s = o[0]; auto h = hooks.find(s);
        if(h != hooks.end()) { Hook k = h->second; I.ex = [=] { if(inDelay) fault("branch in a delay slot"); u64 slot = npc; inDelay = true; pc = slot; code[slot].ex(); inDelay = false; pendingJump = false; k(); R[31] = taddr(slot + 1); npc = slot + 1; }; return; }
        auto t = symText.find(s); if(t == symText.end()) { I.ex = [s] { unsupported("call of undefined function " + s); }; return; }
        u64 i = t->second; I.ex = [=] { R[31] = taddr(npc + 1); mBranch(i); }; return; }
    if(m == "nop") { I.ex = [] {}; return; }
    if(m == "syscall") { I.ex = [] {                                         // the services of SPIM the SPL runtime uses; only $v0 changes
        if(inDelay) fault("syscall in a delay slot");
        switch((u32)R[2]) {
            case 1: put(to_string((i32)R[4])); break;
            case 4: { string s; for(u64 a = (u32)R[4]; char c = (char)ld<uint8_t>(a); ++a) s += c; if(s != "Enter an integer:") put(s == "\n" ? " " : s); break; }
            case 5: mw(2, (u32)strtoll(tok().c_str(), 0, 10)); break;
            case 17: throw Exit{ (int)(R[4] & 255) };
            default: fault("system call " + to_string((i32)R[2])); } }; return; }
    unsupported("instruction " + I.text);
}

// ------------------------------------------------------------------ driver
static void decode(u64 i) { Insn& I = code[i]; if(isa == RV) decodeRV(I, i); else if(isa == ARM) decodeARM(I, i); else decodeMIPS(I, i); }
static void runUntil(u64 idx) {
    u64 savePc = pc, saveN = npc; pc = idx;
    for(;;) {
        if(++steps > maxSteps) fault("does not terminate");
        if(pc >= code.size()) fault("execution runs off the end of the text");
        if(!code[pc].ex) decode(pc);
        npc = pc + 1;
        if(isa == MIPS && npc < code.size() && !code[npc].ex) decode(npc);
        code[pc].ex();
        if(isa == MIPS && pendingJump) {
            pendingJump = false; u64 t = pendingTarget, slot = npc;
            if(slot >= code.size()) fault("execution runs off the end of the text");
            if(!code[slot].ex) decode(slot);
            inDelay = true; npc = slot + 1; pc = slot; code[slot].ex(); inDelay = false; ++steps;
            npc = t == ~2ULL ? slot + 1 : t;
        }
        if(npc == ~0ULL) { pc = npc; return; }
        if(npc == ~1ULL) { pc = savePc; npc = saveN; return; }
        pc = npc;
    }
}
static string unescape(const string& s) { string r; for(size_t i = 0; i < s.size(); ++i) { if(s[i] == '\\' && i + 1 < s.size()) { ++i; if(s[i] == 'n') r += '\n'; else if(s[i] == 't') r += '\t'; else if(s[i] == '0') r += '\0'; else r += s[i]; } else r += s[i]; } return r; }
static void parse(istream& in) {
    enum { Text, Data } sec = Text; string line; int ln = 0; char cm = isa == ARM ? '@' : '#';
    vector<string> pend; bool skip = false;
    auto here = [&]() -> u64 { return DBASE + dataMem.size(); };
    auto align = [&](u64 n) { while(dataMem.size() % n) dataMem.push_back(0); };
    vector<string> dataLabels;
    while(getline(in, line)) {
        ++ln;
        string s; bool q = false; for(char c : line) { if(c == '"') q = !q; if((c == cm || (isa == MIPS && c == '@')) && !q) break; s += c; }
        s = trim(s);
        // labels
        for(;;) { size_t p = s.find(':'); if(p == string::npos || s.find_first_of(" \t\"#,") < p) break; string l = s.substr(0, p);
            if(sec == Text) symText[l] = code.size(); else { dataLabels.push_back(l); } s = trim(s.substr(p + 1)); }
        if(s.empty()) continue;
        size_t sp = s.find_first_of(" \t"); string mn = s.substr(0, sp), rest = sp == string::npos ? "" : trim(s.substr(sp));
        auto bind = [&] { for(auto& l : dataLabels) symData[l] = here(); dataLabels.clear(); };
        if(mn[0] == '.') {
            if(mn == ".text") { bind(); sec = Text; } else if(mn == ".data" || mn == ".bss" || mn == ".rodata") { bind(); sec = Data; }
            else if(mn == ".section") { bind(); sec = rest.compare(0, 5, ".text") == 0 ? Text : Data; }
            else if(sec == Data) {
                if(mn == ".p2align") { u64 n = 1ULL << num(splitOps(rest)[0]); align(n); bind(); }
                else if(mn == ".align") { u64 n = 1ULL << num(splitOps(rest)[0]); align(n); bind(); }
                else if(mn == ".balign") { align((u64)num(rest)); bind(); }
                else if(mn == ".zero" || mn == ".space" || mn == ".skip") { bind(); u64 n = (u64)num(splitOps(rest)[0]); if(n > 1u << 30) fault("huge object"); dataMem.resize(dataMem.size() + n); }
                else if(mn == ".4byte" || mn == ".word" || mn == ".long" || mn == ".int") { bind(); for(auto& e : splitOps(rest)) { if(isnum(e)) { u32 v = (u32)num(e); for(int i = 0; i < 4; ++i) dataMem.push_back((uint8_t)(v >> 8 * i)); } else { fixes.push_back({ dataMem.size(), e, 0, 4 }); dataMem.resize(dataMem.size() + 4); } } }
                else if(mn == ".8byte" || mn == ".dword" || mn == ".quad") { bind(); for(auto& e : splitOps(rest)) { if(isnum(e)) { u64 v = (u64)num(e); for(int i = 0; i < 8; ++i) dataMem.push_back((uint8_t)(v >> 8 * i)); } else { fixes.push_back({ dataMem.size(), e, 0, 8 }); dataMem.resize(dataMem.size() + 8); } } }
                else if(mn == ".2byte" || mn == ".half" || mn == ".short") { bind(); for(auto& e : splitOps(rest)) { u64 v = (u64)num(e); dataMem.push_back((uint8_t)v); dataMem.push_back((uint8_t)(v >> 8)); } }
                else if(mn == ".byte") { bind(); for(auto& e : splitOps(rest)) dataMem.push_back((uint8_t)num(e)); }
                else if(mn == ".ascii" || mn == ".asciz" || mn == ".asciiz" || mn == ".string") { bind(); size_t a = rest.find('"'), b = rest.rfind('"'); for(char c : unescape(rest.substr(a + 1, b - a - 1))) dataMem.push_back((uint8_t)c); if(mn != ".ascii") dataMem.push_back(0); }
            }
            (void)skip;
            continue;
        }
        if(sec != Text) continue;
        Insn I; I.text = s; I.line = ln; I.mn = mn; I.op = splitOps(rest); code.push_back(I);
    }
    for(auto& l : dataLabels) symData[l] = here();
}
int main(int argc, char** argv) {
    string file, input, output; const char* isaS = "";
    for(int i = 1; i < argc; ++i) { string a = argv[i];
        if(a == "-isa") isaS = argv[++i]; else if(a == "-i") input = argv[++i]; else if(a == "-o") output = argv[++i]; else if(a == "-known") knownMode = true; else if(a == "-par") parMode = argv[++i]; else if(a == "-steps") maxSteps = strtoull(argv[++i], 0, 10); else file = a; }
    isa = !strcmp(isaS, "riscv") ? RV : !strcmp(isaS, "arm") ? ARM : MIPS;
    DBASE = isa == RV ? 0x12340000ULL : isa == ARM ? 0x00f17000ULL : 0x1000f000ULL;
    const u64 stackSize = 64u << 20;
    STOP = isa == RV ? 0x3fffe78000ULL : 0x7ffe7000ULL; SBASE = STOP - stackSize;
    stackMem = (uint8_t*)calloc(stackSize, 1);
    { u32 x = 1; for(size_t i = stackSize - (1 << 18); i + 4 <= stackSize; i += 4) { x = x * 1664525u + 1013904223u; memcpy(&stackMem[i], &x, 4); } }
    { ifstream f(input, ios::binary); stringstream ss; ss << f.rdbuf(); inRaw = ss.str(); }
    initHooks();
    int rc = 0; string status = "exit", why;
    try {
        ifstream f(file); if(!f) unsupported("cannot read " + file);
        parse(f);
        dataMem.resize(dataMem.size() + 8);
        for(auto& x : fixes) {
            size_t m = x.sym.find('-', 1);                                   // "a-b": the distance of two labels
            if(m != string::npos) { u64 a = addrOf(x.sym.substr(0, m)) - addrOf(x.sym.substr(m + 1)); memcpy(&dataMem[x.at], &a, x.size); }
            else if(symData.count(x.sym) || symText.count(x.sym)) { u64 a = addrOf(x.sym); memcpy(&dataMem[x.at], &a, x.size); } }
        for(int i = 1; i < 32; ++i) R[i] = isa == RV ? (u64)rnd() << 32 | rnd() : rnd();
        for(int i = 0; i < 64; ++i) F[i] = isa == RV ? 0xffffffff00000000ULL | rnd() : rnd();
        HI = rnd(); LO = rnd();
        int sp = isa == RV ? 2 : isa == ARM ? 13 : 29, ra = isa == RV ? 1 : isa == ARM ? 14 : 31;
        R[sp] = STOP - 4096; R[ra] = EXITADDR;
        if(isa == MIPS) R[28] = 0x10008000;
        u64 save[33], sf[64]; memcpy(save, R, sizeof(R)); memcpy(sf, F, sizeof(F));
        if(!symText.count("main")) fault("main is not defined");
        bool entry = symText.count("_entry"); int code = 0;
        if(entry) { try { runUntil(symText["_entry"]); entry = false; } catch(Exit& e) { code = e.code; } if(!entry) fault("the entry code returns"); }
        else runUntil(symText["main"]);
        if(R[sp] != save[sp]) fault("main does not restore the stack pointer");
        vector<int> cs = isa == RV ? vector<int>{ 3, 4, 8, 9, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27 } : isa == ARM ? vector<int>{ 4, 5, 6, 7, 8, 9, 10, 11 } : vector<int>{ 16, 17, 18, 19, 20, 21, 22, 23, 28, 30 };
        for(int i : cs) if((isa == RV ? R[i] : (u32)R[i]) != (isa == RV ? save[i] : (u32)save[i])) fault("main does not preserve callee-saved register " + to_string(i));
        if(isa == RV) for(int i : { 8, 9, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27 }) if((u32)F[i] != (u32)sf[i]) fault("main does not preserve callee-saved float register " + to_string(i));
        if(isa == ARM) for(int i = 16; i < 32; ++i) if((u32)F[i] != (u32)sf[i]) fault("main does not preserve s" + to_string(i));
        rc = entry ? code : (int)((isa == RV ? R[10] : isa == ARM ? R[0] : R[2]) & 255);
    } catch(Fault& f) {
        status = f.unsupported ? "unsupported" : "fault"; why = f.why;
        if(pc < code.size()) why += " (line " + to_string(code[pc].line) + ": " + code[pc].text + ")";
        rc = f.unsupported ? 120 : 121;
    }
    if(!output.empty()) { ofstream o(output, ios::binary); o << outbuf; }
    else cerr << outbuf;
    printf("%s %d steps=%llu par=%llu known=%d %s\n", status.c_str(), rc, (unsigned long long)steps, (unsigned long long)parCalls, knownSites, why.c_str());
    return 0;
}
