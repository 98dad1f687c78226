// Command line: vcexec module.bc [--jobs N] [--only PREFIX] [--out results.json] [--vc-timeout S] [--slice S] [--concrete SEED --log FILE]
static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else if ((unsigned char)c >= 127) o += '?'; else o += c; } return o; }
struct VCInfo { const Function* F; std::string name; bool neg; std::map<std::string, LabelStat> labels; std::set<std::string> covers, assumptions, unsupported, bounded; std::map<std::string, long> counters; long paths = 0, discarded = 0, aborted = 0, pendingJobs = 0; uint64_t steps = 0, mem = 0; double solver = 0, canon = 0, cpu = 0; bool timedOut = false; };
struct Job { int vc; std::vector<std::vector<Dec>> prefixes; };
static void wr(FILE* f, const std::string& s) { fprintf(f, "%s\n", s.c_str()); }
static std::string oneLine(std::string s) { for (auto& c : s) if (c == '\n' || c == '\t' || c == '\r') c = ' '; return s; }
static std::string g_jobFile;
static void onAlarm(int) { FILE* f = fopen(g_jobFile.c_str(), "a"); if (f) { fprintf(f, "\nK\tkilled by the time limit\n"); fclose(f); } _exit(0); }
static void runJob(Exec& E, const VCInfo& V, const Job& J, const Snapshot& init, const std::string& out, double slice, double vcBudgetLeft) {
    g_jobFile = out; signal(SIGALRM, onAlarm); alarm((unsigned)std::max(5.0, std::min(vcBudgetLeft + 5, 1e6)));
    struct rlimit rl { 6ull << 30, 6ull << 30 }; setrlimit(RLIMIT_AS, &rl);
    double t0 = now(); E.Z = new z3::context(); E.deadline = t0 + vcBudgetLeft; E.curCase = V.name;
    for (auto& p : J.prefixes) E.work.push_back(p);
    std::vector<std::vector<Dec>> rest; bool timeup = false; std::string mem;
    try {
        while (!E.work.empty()) {
            if (now() - t0 > slice && E.work.size() > 1 && E.paths > 0) break;
            auto p = E.work.back(); E.work.pop_back();
            try { E.runPath(V.F, init, p); } catch (TimeUp& t) { timeup = true; break; }
            if (E.labels.size() && !V.neg) { bool ref = false; for (auto& l : E.labels) if (l.second.refuted) ref = true; if (ref && E.paths > 50) { E.work.clear(); break; } }
        }
    } catch (std::bad_alloc&) { mem = "out of memory"; }
    catch (Violation& v) { mem = "internal: " + v.detail; } catch (Unsupported& u) { mem = "internal: " + u.what; }
    FILE* f = fopen(out.c_str(), "w");
    for (auto& l : E.labels) { auto& L = l.second; fprintf(f, "O\t%s\t%ld\t%ld\t%ld\t%ld\t%ld\t%s\n", oneLine(l.first).c_str(), L.exact, L.tol, L.smt, L.undec, L.refuted, oneLine(L.detail).c_str()); for (auto& m : L.model) fprintf(f, "M\t%s\t%s\n", m.first.c_str(), m.second.c_str()); }
    for (auto& c : E.covers) wr(f, "C\t" + oneLine(c)); for (auto& c : E.funcsRun) wr(f, "F\t" + oneLine(c)); for (auto& c : E.assumptions) wr(f, "A\t" + oneLine(c)); for (auto& c : E.unsupported) wr(f, "U\t" + oneLine(c)); for (auto& c : E.boundedWhy) wr(f, "B\t" + oneLine(c));
    for (auto& c : E.execCount) fprintf(f, "N\t%s\t%ld\n", c.first.c_str(), c.second);
    fprintf(f, "S\t%ld\t%ld\t%ld\t%lu\t%lu\t%f\t%f\t%f\n", E.paths, E.discarded, E.aborted, (unsigned long)E.steps, (unsigned long)E.memChecks, E.solverSecs, E.canonSecs, now() - t0);
    if (timeup) wr(f, "K\ttime limit"); if (!mem.empty()) wr(f, "U\t" + mem);
    if (!timeup && mem.empty()) for (auto& p : E.work) { fprintf(f, "X"); for (auto& d : p) fprintf(f, "\t%ld", (long)d.v); fprintf(f, "\n"); }
    fprintf(f, "END\n"); fclose(f); _exit(0);
}
int main(int argc, char** argv) {
    std::string mod, out = "/dev/stdout", only, logf; int jobs = 8; double vcTimeout = 120, slice = 6; bool conc = false; uint64_t cseed = 1;
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--out") out = argv[++i]; else if (a == "--only") only = argv[++i]; else if (a == "--vc-timeout") vcTimeout = atof(argv[++i]); else if (a == "--slice") slice = atof(argv[++i]); else if (a == "--concrete") { conc = true; cseed = strtoull(argv[++i], 0, 10); } else if (a == "--log") logf = argv[++i]; else if (a == "--eq-ops") g_eq_ops = atof(argv[++i]); else if (a == "--sqrt-split") g_sqrt_split = true; else if (a == "--z3-ms") g_z3_ms = atoi(argv[++i]); else mod = a; }
    LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(mod, err, ctx);
    if (!M) { err.print("vcexec", errs()); return 2; }
    // typeinfo objects for exceptions raised by the runtime itself
    for (const char* t : {"_ZTISt12out_of_range", "_ZTISt12length_error", "_ZTISt9bad_alloc", "_ZTISt20bad_array_new_length", "_ZTISt17bad_function_call", "_ZTISt11logic_error", "_ZTISt16invalid_argument", "_ZTISt8bad_cast", "_ZTISt13runtime_error", "_ZTISt12system_error", "_ZTISt12bad_weak_ptr"}) M->getOrInsertGlobal(t, PointerType::get(ctx, 0));
    Exec E(*M); E.initGlobals(); Snapshot init = E.mem;
    std::vector<VCInfo> vcs;
    for (auto& f : *M) { if (f.isDeclaration()) continue; std::string n = f.getName().str(); bool c = n.compare(0, 8, "vc_case_") == 0, g = n.compare(0, 7, "vc_neg_") == 0; if (!c && !g) continue; std::string nm = n.substr(c ? 8 : 7); if (!only.empty() && nm.compare(0, only.size(), only) != 0) continue; VCInfo v; v.F = &f; v.name = nm; v.neg = g; vcs.push_back(v); }
    if (conc) {
        E.concrete = true; E.cseed = vc_mix(cseed * 0 + cseed); E.cseed = cseed; E.clog = logf.empty() ? stdout : fopen(logf.c_str(), "w");
        for (auto& v : vcs) { if (v.neg) continue; E.curCase = v.name; E.steps = 0; E.runPath(v.F, init, {}); for (auto& u : E.unsupported) fprintf(E.clog, "%s UNSUPPORTED %s\n", v.name.c_str(), u.c_str()); E.unsupported.clear(); }
        if (E.clog) fflush(E.clog); return 0;
    }
    char tmpl[] = "/tmp/vcexecXXXXXX"; std::string dir = mkdtemp(tmpl); double T0 = now();
    std::vector<Job> q; for (size_t i = vcs.size(); i-- > 0;) { q.push_back({(int)i, {{}}}); vcs[i].pendingJobs = 1; }
    std::map<pid_t, std::pair<Job, std::string>> run; int seq = 0; std::set<std::string> funcs; std::vector<double> used(vcs.size(), 0);
    while (!q.empty() || !run.empty()) {
        while ((int)run.size() < jobs && !q.empty()) {
            Job j = q.back(); q.pop_back(); double left = vcTimeout - used[j.vc];
            if (left < 1) { vcs[j.vc].timedOut = true; --vcs[j.vc].pendingJobs; continue; }
            std::string fn = dir + "/j" + std::to_string(seq++); pid_t p = fork();
            if (p == 0) runJob(E, vcs[j.vc], j, init, fn, slice, left);
            run[p] = {j, fn};
        }
        if (run.empty()) continue;
        int stt; pid_t p = wait(&stt); auto it = run.find(p); if (it == run.end()) continue;
        Job j = it->second.first; std::string fn = it->second.second; run.erase(it); VCInfo& v = vcs[j.vc]; --v.pendingJobs;
        std::ifstream in(fn); std::string line; bool end = false; std::vector<std::vector<Dec>> pend; std::string lastLab; bool killed = false;
        while (std::getline(in, line)) {
            std::vector<std::string> t; { std::stringstream ss(line); std::string w; while (std::getline(ss, w, '\t')) t.push_back(w); } if (t.empty()) continue; t.resize(std::max<size_t>(t.size(), 9));
            if (t[0] == "O") { auto& L = v.labels[t[1]]; lastLab = L.refuted ? "" : t[1]; L.exact += atol(t[2].c_str()); L.tol += atol(t[3].c_str()); L.smt += atol(t[4].c_str()); L.undec += atol(t[5].c_str()); L.refuted += atol(t[6].c_str()); if (!t[7].empty()) L.detail = t[7]; }
            else if (t[0] == "M") { if (!lastLab.empty()) v.labels[lastLab].model.push_back({t[1], t[2]}); }
            else if (t[0] == "C") v.covers.insert(t[1]); else if (t[0] == "F") funcs.insert(t[1]); else if (t[0] == "A") v.assumptions.insert(t[1]); else if (t[0] == "U") v.unsupported.insert(t[1]); else if (t[0] == "B") v.bounded.insert(t[1]); else if (t[0] == "N") v.counters[t[1]] += atol(t[2].c_str());
            else if (t[0] == "S") { v.paths += atol(t[1].c_str()); v.discarded += atol(t[2].c_str()); v.aborted += atol(t[3].c_str()); v.steps += atol(t[4].c_str()); v.mem += atol(t[5].c_str()); v.solver += atof(t[6].c_str()); v.canon += atof(t[7].c_str()); v.cpu += atof(t[8].c_str()); used[j.vc] += atof(t[8].c_str()) / std::min(jobs, 4); }
            else if (t[0] == "K") { v.timedOut = true; killed = true; }
            else if (t[0] == "X") { std::vector<Dec> d; std::stringstream ss(line.substr(1)); long x; while (ss >> x) d.push_back({x}); pend.push_back(d); }
            else if (t[0] == "END") end = true;
        }
        if (!end && !killed) v.unsupported.insert("worker process died (memory limit or crash), status " + std::to_string(stt));
        if (killed) used[j.vc] = vcTimeout;
        bool ref = false; long nref = 0; for (auto& l : v.labels) { if (l.second.refuted) ref = true; nref += l.second.refuted; }
        if (!pend.empty() && !(ref && nref > 50)) { size_t k = std::min<size_t>(pend.size(), jobs); for (size_t c = 0; c < k; ++c) { Job nj; nj.vc = j.vc; for (size_t i = c; i < pend.size(); i += k) nj.prefixes.push_back(pend[i]); q.push_back(nj); ++v.pendingJobs; } }
        unlink(fn.c_str());
    }
    rmdir(dir.c_str());
    FILE* f = fopen(out.c_str(), "w"); fprintf(f, "{\"wall\": %.3f, \"module\": \"%s\", \"vcs\": [", now() - T0, jesc(mod).c_str());
    bool first = true;
    for (auto& v : vcs) {
        fprintf(f, "%s\n {\"name\": \"%s\", \"neg\": %s, \"paths\": %ld, \"discarded\": %ld, \"aborted\": %ld, \"timed_out\": %s, \"steps\": %lu, \"memory_accesses_checked\": %lu, \"solver_s\": %.3f, \"canon_s\": %.3f, \"cpu_s\": %.3f,\n  \"labels\": [", first ? "" : ",", v.name.c_str(), v.neg ? "true" : "false", v.paths, v.discarded, v.aborted, v.timedOut ? "true" : "false", (unsigned long)v.steps, (unsigned long)v.mem, v.solver, v.canon, v.cpu);
        first = false; bool fl = true;
        for (auto& l : v.labels) { auto& L = l.second; fprintf(f, "%s\n   {\"label\": \"%s\", \"exact\": %ld, \"tol\": %ld, \"smt\": %ld, \"undecided\": %ld, \"refuted\": %ld, \"detail\": \"%s\", \"model\": [", fl ? "" : ",", jesc(l.first).c_str(), L.exact, L.tol, L.smt, L.undec, L.refuted, jesc(L.detail).c_str()); fl = false; bool fm = true; for (auto& m : L.model) { fprintf(f, "%s[\"%s\",\"%s\"]", fm ? "" : ",", jesc(m.first).c_str(), jesc(m.second).c_str()); fm = false; } fprintf(f, "]}"); }
        auto arr = [&](const char* n, const std::set<std::string>& s) { fprintf(f, ", \"%s\": [", n); bool b = true; for (auto& x : s) { fprintf(f, "%s\"%s\"", b ? "" : ",", jesc(x).c_str()); b = false; } fprintf(f, "]"); };
        fprintf(f, "]"); arr("covers", v.covers); arr("assumptions", v.assumptions); arr("unsupported", v.unsupported); arr("bounded", v.bounded);
        fprintf(f, ", \"counters\": {"); bool b = true; for (auto& c : v.counters) { fprintf(f, "%s\"%s\": %ld", b ? "" : ",", jesc(c.first).c_str(), c.second); b = false; } fprintf(f, "}}");
    }
    fprintf(f, "\n], \"functions\": ["); first = true; for (auto& x : funcs) { fprintf(f, "%s\n \"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; } fprintf(f, "]}\n"); fclose(f);
    return 0;
}
