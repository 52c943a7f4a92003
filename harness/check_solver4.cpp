/* C20 quasi-Newton, conjugate gradient and Newton models */
#include "solv.h"
using namespace vp;

namespace {
double fs(double f) { return 1 + std::fabs(f); }
bool updateExpected(double sy, double ss, double ng1, double ng0, double nu, double mu, bool &clear) {
    double e = std::numeric_limits<double>::epsilon(), q = sy / ss, lim = nu * std::pow(ng1, mu);
    clear = std::fabs(q - lim) > 1e-6 * (std::fabs(q) + lim);
    bool big = ss > e && sy > e, late = ng1 / ng0 < 1e-3;
    if (std::fabs(ng1 / ng0 - 1e-3) < 1e-9) clear = false;
    return q >= lim && (late || big);
}
Vector rv(const Manifold *M, const Variable &x, SplitMix &r) { Vector v(M->GetEMPTY()); v.NewMemoryOnWrite(); realdp *p = v.ObtainWriteEntireData(); for (integer i = 0; i < v.Getlength(); i++) p[i] = r.normal(); M->Projection(x, v, &v); return v; }
double nr(const Manifold *M, const Variable &x, const Vector &v) { return std::sqrt(std::max(0.0, M->Metric(x, v, v))); }
void closeVec(Gen &g, const Manifold *M, const Variable &x, const Vector &a, const Vector &b, double scale, double tol, const char *what) {
    Vector d(a); M->VectorLinearCombination(x, 1, a, -1, b, &d); double q = nr(M, x, d);
    if (!(q <= tol * std::max(scale, 1e-300))) { std::ostringstream o; o << what << ": differs by " << q << " (scale " << scale << ", tolerance " << tol << ")"; g.fail(o.str()); }
}
struct Judge { Gen *g = nullptr; SplitMix r; long updates = 0, skips = 0; bool off = false; std::vector<V> xs, dirs; std::vector<double> fsr; virtual ~Judge() {} };

/* full-memory inverse updates */
template <class S> struct FullQN : public S, public Judge {
    FullQN(const Problem *p, const Variable *x, LinearOPE *H = nullptr) : S(p, x, H) {}
    virtual void GetSearchDir(void) { S::GetSearchDir(); xs.push_back(rawE(this->x1)); dirs.push_back(rawE(this->eta1)); fsr.push_back(this->f1); }
    virtual void UpdateData(void) {
        const bool W = std::is_same<S, RWRBFGS>::value;
        Gen &G = *g; auto *M = this->Mani; const Variable &x1 = this->x1, &x2 = this->x2;
        if (off || !(std::fabs(this->f2) < 1e8) || this->stepsize * this->stepsize == 0 || vnrm(rawE(x2)) > 1e4) { off = true; S::UpdateData(); return; }
        Vector s(this->gf1), y(this->gf1), t(this->gf1), e(this->eta2);
        if (W) { s = e; M->coTangentVector(x1, e, x2, this->gf2, &y); M->VectorLinearCombination(x1, -1, this->gf1, 1, y, &y); }
        else { M->VectorTransport(x1, e, x2, e, &s); M->VectorTransport(x1, e, x2, this->gf1, &t); M->VectorLinearCombination(x2, 1 / M->Beta(x1, e), this->gf2, -1, t, &y); }
        const Variable &xb = W ? x1 : x2; /* where the pair lives */
        double sy = M->Metric(xb, s, y), ss = M->Metric(xb, s, s), yy = M->Metric(xb, y, y);
        /* reference action of the updated operator */
        Vector v = rv(M, x1, r), Hv(v), Tv(v), THv(v), u(v), a(v);
        bool scaled = this->isconvex && this->iter == 1 && sy > 0;
        auto Hold = [&](const Vector &q, Vector &out) { Vector in(q); if (scaled) M->ScalarTimesVector(x1, sy / yy, in, &out); else M->LinearOPEEta(x1, this->H, in, &out); };
        auto bfgs = [&](const Variable &x, const Vector &w, std::function<void(const Vector &, Vector &)> H0, Vector &out) {
            double sw = M->Metric(x, s, w) / sy; Vector q(w); M->VectorLinearCombination(x, 1, w, -sw, y, &q);
            Vector Hq(w); H0(q, Hq); double c = M->Metric(x, y, Hq) / sy; M->VectorLinearCombination(x, 1, Hq, sw - c, s, &out);
        };
        Vector ref(v), keep(v); /* value at T v, if updated and if not */
        M->VectorTransport(x1, e, x2, v, &Tv);
        Hold(v, Hv); M->VectorTransport(x1, e, x2, Hv, &keep);
        double hn = nr(M, x1, Hv) / nr(M, x1, v);
        if (W) { Vector q(v); bfgs(x1, v, Hold, q); M->VectorTransport(x1, e, x2, q, &ref); }
        else bfgs(x2, Tv, [&](const Vector &q, Vector &out) { Vector b(q), c(q); M->InverseVectorTransport(x1, e, x2, q, &b); Hold(b, c); M->VectorTransport(x1, e, x2, c, &out); }, ref);
        double ng1 = this->ngf2;
        S::UpdateData();
        double amp = std::sqrt(ss * yy) / std::fabs(sy);
        if (!(amp < 1e5) || !(nr(M, xb, s) > 1e-7) || !(nr(M, xb, y) > 1e-7) || !(hn < 1e6)) { off = true; return; }
        closeVec(G, M, xb, this->s, s, nr(M, xb, s), 1e-9, "stored step");
        closeVec(G, M, xb, this->y, y, nr(M, x1, this->gf1) + nr(M, x2, this->gf2), 1e-9, "stored gradient difference");
        bool clear, want = updateExpected(sy, ss, ng1, this->ngf0, this->nu, this->mu, clear);
        if (clear) G.require(this->isupdated == want, want ? "the update was not made" : "an update was made although the pair fails its condition");
        Vector got(v); M->LinearOPEEta(x2, this->H, Tv, &got);
        double sc = (hn + ss / std::fabs(sy)) * nr(M, x2, Tv) * (this->isupdated ? amp * amp : 1);
        closeVec(G, M, x2, got, this->isupdated ? ref : keep, sc, 1e-8, this->isupdated ? "updated operator" : "operator that is only transported");
        if (this->isupdated) {
            updates++;
            Vector Ty(y), Ts(s); if (W) { M->VectorTransport(x1, e, x2, y, &Ty); M->VectorTransport(x1, e, x2, s, &Ts); }
            Vector Hy(y); M->LinearOPEEta(x2, this->H, Ty, &Hy);
            closeVec(G, M, x2, Hy, Ts, nr(M, x2, Ts) + hn * nr(M, x2, Ty), 1e-8 * amp, "secant equation");
        } else skips++;
        Vector w = rv(M, x2, r), Hw(w); M->LinearOPEEta(x2, this->H, w, &Hw);
        G.close(M->Metric(x2, Hw, Tv), M->Metric(x2, w, got), nr(M, x2, Hw) * nr(M, x2, Tv) + nr(M, x2, got) * nr(M, x2, w), 1e-9 * amp, "operator is self-adjoint");
        if (sy > 0 || !this->isupdated) { double q = M->Metric(x2, w, Hw); G.require(q > -1e-9 * amp * nr(M, x2, w) * nr(M, x2, Hw), "operator is not positive"); }
    }
};
/* limited memory: an explicit list of pairs */
struct LM : public LRBFGS, public Judge {
    bool unit = false; /* start from the identity */
    struct Pair { Vector s, y; double sy; };
    std::vector<Pair> mem; double gm = 1; bool started = false;
    LM(const Problem *p, const Variable *x) : LRBFGS(p, x) {}
    virtual realdp InitialHessian(realdp ss, realdp sy, realdp yy) { return unit ? 1 : LRBFGS::InitialHessian(ss, sy, yy); }
    virtual void GetSearchDir(void) {
        LRBFGS::GetSearchDir();
        xs.push_back(rawE(x1)); dirs.push_back(rawE(eta1)); fsr.push_back(f1);
        if (off) return;
        Vector q(gf1); double amp = 1;
        std::vector<double> al(mem.size());
        for (int i = (int) mem.size() - 1; i >= 0; i--) { al[i] = Mani->Metric(x1, mem[i].s, q) / mem[i].sy; Mani->VectorLinearCombination(x1, -al[i], mem[i].y, 1, q, &q); amp *= 1 + std::fabs(al[i]) * nr(Mani, x1, mem[i].y) / nr(Mani, x1, gf1); }
        Vector Pq(q); Prob->PreConditioner(x1, q, &Pq); Mani->ScalarTimesVector(x1, gm, Pq, &q);
        for (size_t i = 0; i < mem.size(); i++) { double b = Mani->Metric(x1, mem[i].y, q) / mem[i].sy; Mani->VectorLinearCombination(x1, al[i] - b, mem[i].s, 1, q, &q); }
        Vector d(gf1); Mani->ScalarTimesVector(x1, -1, q, &d);
        if (amp < 1e6) closeVec(*g, Mani, x1, eta1, d, nr(Mani, x1, d) + gm * nr(Mani, x1, gf1), 1e-9 * amp, "direction of the stored pairs");
    }
    virtual void UpdateData(void) {
        if (off || !(std::fabs(f2) < 1e8) || vnrm(rawE(x2)) > 1e4) { off = true; LRBFGS::UpdateData(); return; }
        Vector s(gf1), t(gf1), y(gf1), e(eta2); Mani->VectorTransport(x1, e, x2, e, &s); Mani->VectorTransport(x1, e, x2, gf1, &t); Mani->VectorLinearCombination(x2, 1 / Mani->Beta(x1, e), gf2, -1, t, &y);
        double sy = Mani->Metric(x2, s, y), ss = Mani->Metric(x2, s, s), ng1 = ngf2; Vector Py(y); Prob->PreConditioner(x2, y, &Py); double yy = Mani->Metric(x2, y, Py), yn = Mani->Metric(x2, y, y);
        LRBFGS::UpdateData();
        if (!(std::sqrt(ss * yn) < 1e5 * std::fabs(sy)) || !(ss > 1e-14) || !(yn > 1e-14)) { off = true; return; }
        bool clear, want = updateExpected(sy, ss, ng1, ngf0, nu, mu, clear);
        if (clear) g->require(isupdated == want, want ? "the pair was not stored" : "a pair was stored although it fails its condition");
        for (auto &p : mem) { Vector a(p.s), b(p.y); Mani->VectorTransport(x1, e, x2, p.s, &a); Mani->VectorTransport(x1, e, x2, p.y, &b); p.s = a; p.y = b; }
        if (isupdated) {
            updates++; gm = unit ? 1 : sy / yy;
            if (LMrestart && (int) mem.size() >= LengthSY) mem.clear();
            if (LengthSY > 0) { if ((int) mem.size() >= LengthSY) mem.erase(mem.begin()); mem.push_back({s, y, sy}); }
        } else skips++;
    }
};
/* symmetric rank one, full memory */
struct SR1 : public RTRSR1, public Judge {
    SR1(const Problem *p, const Variable *x, LinearOPE *B = nullptr) : RTRSR1(p, x, B) {}
    long acc = 0;
    virtual void UpdateData(void) {
        if (off || !(std::fabs(f2) < 1e8) || vnrm(rawE(x2)) > 1e4) { off = true; RTRSR1::UpdateData(); return; }
        Vector v = rv(Mani, x1, r), Bv(v), Be(v); Mani->LinearOPEEta(x1, B, v, &Bv); Mani->LinearOPEEta(x1, B, eta2, &Be);
        double bn = nr(Mani, x1, Bv) / nr(Mani, x1, v);
        closeVec(*g, Mani, x1, Heta2, Be, nr(Mani, x1, Be) + bn * nr(Mani, x1, eta2), 1e-9, "action of the model on the step");
        RTRSR1::UpdateData();
        Vector sref(eta2), yref(v), gg(v); Prob->Grad(x2, &gg); Mani->InverseVectorTransport(x1, eta2, x2, gg, &yref); Mani->VectorLinearCombination(x1, -1, gf1, 1, yref, &yref);
        double yn = nr(Mani, x1, yref), sn = nr(Mani, x1, sref);
        if (!(yn > 1e-7) || !(sn > 1e-7) || !(bn < 1e5)) { off = true; return; }
        closeVec(*g, Mani, x1, y, yref, yn + nr(Mani, x1, gf1), 1e-9, "stored gradient difference");
        closeVec(*g, Mani, x1, s, sref, sn, 1e-12, "stored step");
        Vector By(v); Mani->LinearOPEEta(x1, B, s, &By);
        Vector got(v); Mani->LinearOPEEta(x1, B, v, &got);
        if (!(nr(Mani, x1, got) < 1e5 * nr(Mani, x1, v))) { off = true; return; }
        double b2 = nr(Mani, x1, got) / nr(Mani, x1, v);
        if (isupdated) { updates++; closeVec(*g, Mani, x1, By, y, yn + (bn + b2) * sn, 1e-7, "secant equation"); }
        Vector z(y); Mani->VectorLinearCombination(x1, 1, y, -1, Be, &z); double sz = Mani->Metric(x1, s, z), zn = nr(Mani, x1, z);
        if (!scaledNow()) {
            if (std::fabs(sz) > 1e-6 * sn * zn && zn > 1e-6) g->require(isupdated, "the update was not made");
            if (isupdated && std::fabs(sz) > 1e-5 * sn * zn) { Vector ref(v); Mani->VectorLinearCombination(x1, 1, Bv, Mani->Metric(x1, z, v) / sz, z, &ref); closeVec(*g, Mani, x1, got, ref, (bn + b2) * nr(Mani, x1, v), 1e-7 * std::max(1.0, sn * zn / std::fabs(sz)), "rank-one update"); }
            if (!isupdated) { closeVec(*g, Mani, x1, got, Bv, bn * nr(Mani, x1, v), 1e-12, "operator without an update"); skips++; }
        }
        Vector w = rv(Mani, x1, r), Bw(w); Mani->LinearOPEEta(x1, B, w, &Bw);
        g->close(Mani->Metric(x1, Bw, v), Mani->Metric(x1, w, got), (nr(Mani, x1, Bw) * nr(Mani, x1, v) + nr(Mani, x1, got) * nr(Mani, x1, w)), 1e-8, "operator is self-adjoint");
    }
    bool scaledNow() { return updates + skips == 0 || iter <= 1; }
    virtual void Acceptence(void) {
        if (off) { RTRSR1::Acceptence(); return; }
        Vector v = rv(Mani, x1, r), Bv(v), Tv(v), TBv(v), got(v); Mani->LinearOPEEta(x1, B, v, &Bv); Mani->VectorTransport(x1, eta2, x2, v, &Tv); Mani->VectorTransport(x1, eta2, x2, Bv, &TBv);
        RTRSR1::Acceptence();
        Mani->LinearOPEEta(x2, B, Tv, &got); closeVec(*g, Mani, x2, got, TBv, nr(Mani, x2, TBv), 1e-8, "transported operator"); acc++;
    }
};
/* symmetric rank one, limited memory */
struct LSR1 : public LRTRSR1, public Judge {
    LSR1(const Problem *p, const Variable *x) : LRTRSR1(p, x) {}
    struct Pair { Vector s, y; };
    std::vector<Pair> mem; long judged = 0;
    virtual void tCG_TR(void) {
        LRTRSR1::tCG_TR();
        if (off) return;
        int k = Currentlength;
        g->require(k == (int) mem.size(), "number of stored pairs");
        if (k) { Mat Q = vm(rawE(PMGQ), 0, k, k, false); auto sv = svals(Q); if (!(sv[0] < 1e5 * sv[k - 1])) return; }
        Vector v = rv(Mani, x1, r), got(v); HessianEta(v, &got);
        /* sequential updates of gamma I: columns z_j and denominators */
        std::vector<Vector> z; std::vector<double> d; double amp = 1;
        auto B = [&](const Vector &w) { Vector o(w); Mani->ScalarTimesVector(x1, gamma, w, &o); for (size_t j = 0; j < z.size(); j++) { double c = Mani->Metric(x1, z[j], w) / d[j]; Mani->VectorLinearCombination(x1, c, z[j], 1, o, &o); } return o; };
        for (auto &p : mem) { Vector t = B(p.s), q(p.y); Mani->VectorLinearCombination(x1, 1, p.y, -1, t, &q); double den = Mani->Metric(x1, p.s, q); double rel = nr(Mani, x1, p.s) * (nr(Mani, x1, p.y) + nr(Mani, x1, t)) / std::fabs(den); amp = std::max(amp, rel); if (!(rel < 1e4)) return; z.push_back(q); d.push_back(den); }
        Vector ref = B(v); closeVec(*g, Mani, x1, got, ref, nr(Mani, x1, ref) + nr(Mani, x1, got) + std::fabs(gamma) * nr(Mani, x1, v), 1e-10 * amp * amp, "model of the stored pairs");
        if (!mem.empty()) { Vector t(v); HessianEta(mem.back().s, &t); closeVec(*g, Mani, x1, t, mem.back().y, nr(Mani, x1, mem.back().y) + nr(Mani, x1, t), 1e-10 * amp * amp, "secant equation"); judged++; }
    }
    virtual void UpdateData(void) {
        Vector Be(Heta2);
        if (off || !(std::fabs(f2) < 1e8) || vnrm(rawE(x2)) > 1e4) { off = true; LRTRSR1::UpdateData(); return; }
        LRTRSR1::UpdateData();
        Vector yref(gf1), gg(gf1); Prob->Grad(x2, &gg); Mani->InverseVectorTransport(x1, eta2, x2, gg, &yref); Mani->VectorLinearCombination(x1, -1, gf1, 1, yref, &yref);
        double yn = nr(Mani, x1, yref), sn = nr(Mani, x1, eta2);
        if (!(yn > 1e-7) || !(sn > 1e-7)) { off = true; return; }
        closeVec(*g, Mani, x1, y, yref, yn + nr(Mani, x1, gf1), 1e-9, "stored gradient difference");
        Vector zz(y); Mani->VectorLinearCombination(x1, 1, y, -1, Be, &zz); double sz = Mani->Metric(x1, eta2, zz), zn = nr(Mani, x1, zz);
        if (iter > 0 && std::fabs(sz) > 1e-6 * sn * zn && zn > 1e-6) g->require(isupdated, "the pair was not stored");
        if (isupdated) { updates++; Vector se(eta2); if (LMrestart && (int) mem.size() >= LengthSY) mem.clear(); if (LengthSY > 0) { if ((int) mem.size() >= LengthSY) mem.erase(mem.begin()); mem.push_back({se, yref}); } }
        else skips++;
    }
    virtual void Acceptence(void) {
        for (auto &p : mem) { Vector a(p.s), b(p.y); Mani->VectorTransport(x1, eta2, x2, p.s, &a); Mani->VectorTransport(x1, eta2, x2, p.y, &b); p.s = a; p.y = b; }
        LRTRSR1::Acceptence();
    }
};
struct QCase { std::shared_ptr<Inst> I; V x0; Variable X0; };
QCase makeQ(Gen &g, int need, std::vector<int> kinds = {}) { QCase c; c.I = makeSolvable(g, need, 5, kinds); SplitMix r = g.data(); c.x0 = c.I->point(r, 0); c.X0 = c.I->elem(c.x0);
    if (c.I->kind == PWAVE && c.I->c->kind == EUC && g.chance(1, 3)) { auto W = std::static_pointer_cast<WaveProb>(c.I->P); W->prec = true; W->pd.resize(c.I->c->extr()); for (auto &e : W->pd) e = std::exp(r.normal()); g.addNote("preconditioned "); }
    return c; }
template <class T> void setLS(Gen &g, T &s, int al) {
    s.Verbose = NOOUTPUT; s.LineSearch_LS = (LSAlgoSM) al; s.Max_Iteration = g.integer(1, 15); s.InitSteptype = (InitStepsizeSetSM) g.integer(0, 4); s.Accuracy = 0;
    if (g.boolean()) { s.LS_ratio1 = s.LS_ratio2 = 0.5; }
    if (g.boolean()) s.LS_beta = 0.9;
    std::ostringstream o; o << "ls=" << al << " it=" << s.Max_Iteration << " init=" << s.InitSteptype << " beta=" << s.LS_beta << " "; g.addNote(o.str());
}
/* a symmetric positive operator in coordinates */
std::shared_ptr<LinearOPE> initialOPE(SplitMix &r, int n) { Mat A = spdMat(r, n, false, 0.3, 3); auto H = std::make_shared<LinearOPE>(n, n); V a = mv1(A, false); std::copy(a.begin(), a.end(), H->ObtainWriteEntireData()); return H; }
bool flatCoords(const Inst &I) {
    auto ok = [](const Conf &c) { return c.intr || c.kind == EUC; };
    if (I.c) return ok(*I.c);
    for (auto &p : I.parts) if (!ok(*p)) return false;
    return true;
}
template <class S> void runFull(Gen &g, QCase &c, int al) {
    std::shared_ptr<LinearOPE> H; SplitMix r = g.data();
    if (flatCoords(*c.I) && g.chance(1, 4)) { H = initialOPE(r, c.I->M->GetEMPTY().Getlength()); g.addNote("initial operator "); }
    S s(c.I->P.get(), &c.X0, H.get()); s.g = &g; s.r = r; setLS(g, s, al); s.isconvex = g.chance(1, 4); if (g.chance(1, 4)) { s.nu = g.pick(std::vector<double>{0.5, 0.1}); s.mu = g.pick(std::vector<double>{0, 2}); }
    std::ostringstream o; o << (s.isconvex ? "convex " : "") << "nu=" << s.nu << " mu=" << s.mu << " "; g.addNote(o.str());
    s.Run();
    if (s.updates >= 2) g.nontrivial(); if (s.skips) g.label("skipped updates");
}
const std::vector<int> LSA = {LSSM_ARMIJO, LSSM_ARMIJO, LSSM_WOLFE, LSSM_STRONGWOLFE};
} // namespace

VP_CHECK("C20", full_memory_updates, 40000, 700000, "at least two updates were made") {
    int which = g.integer(0, 2), al = g.pick(LSA);
    QCase c = makeQ(g, N_TRANSPORT | (al ? N_DR : 0) | (which == 2 ? N_DR : 0));
    g.addNote(which == 0 ? "RBFGS " : which == 1 ? "RBroydenFamily " : "RWRBFGS "); g.label(which == 0 ? "RBFGS" : which == 1 ? "RBroydenFamily" : "RWRBFGS");
    if (which == 0) runFull<FullQN<RBFGS>>(g, c, al); else if (which == 1) runFull<FullQN<RBroydenFamily>>(g, c, al); else runFull<FullQN<RWRBFGS>>(g, c, al);
}
VP_CHECK("C20", limited_memory_directions, 40000, 700000, "more pairs were accepted than can be stored") {
    int al = g.pick(LSA); QCase c = makeQ(g, N_TRANSPORT | (al ? N_DR : 0));
    LM s(c.I->P.get(), &c.X0); s.g = &g; s.r = g.data(); setLS(g, s, al); s.LengthSY = g.integer(0, 5); s.LMrestart = g.boolean(); s.unit = g.chance(1, 4);
    if (g.chance(1, 4)) { s.nu = g.pick(std::vector<double>{0.5, 0.1}); s.mu = g.pick(std::vector<double>{0, 2}); }
    std::ostringstream o; o << "mem=" << s.LengthSY << (s.LMrestart ? " restart " : " ") << "nu=" << s.nu << " "; g.addNote(o.str());
    s.Run();
    if (s.updates > s.LengthSY) g.nontrivial();
}
VP_CHECK("C20", rank_one_updates, 30000, 500000, "at least two updates were made and a step was accepted") {
    QCase c = makeQ(g, N_TRANSPORT); SplitMix r = g.data(); std::shared_ptr<LinearOPE> B;
    if (flatCoords(*c.I) && g.chance(1, 4)) { B = initialOPE(r, c.I->M->GetEMPTY().Getlength()); g.addNote("initial operator "); }
    SR1 s(c.I->P.get(), &c.X0, B.get()); s.g = &g; s.r = r; s.Verbose = NOOUTPUT; s.Max_Iteration = g.integer(1, 15); s.initial_Delta = g.logreal(1e-2, 10);
    s.Run();
    if (s.updates >= 2 && s.acc) g.nontrivial();
}
VP_CHECK("C20", limited_memory_rank_one, 30000, 500000, "the model of at least two stored pairs was judged") {
    QCase c = makeQ(g, N_TRANSPORT);
    LSR1 s(c.I->P.get(), &c.X0); s.g = &g; s.r = g.data(); s.Verbose = NOOUTPUT; s.Max_Iteration = g.integer(1, 15); s.initial_Delta = g.logreal(1e-2, 10);
    s.LengthSY = g.integer(0, 5); s.LMrestart = g.boolean();
    std::ostringstream o; o << "mem=" << s.LengthSY << (s.LMrestart ? " restart " : " "); g.addNote(o.str());
    s.Run();
    if (s.judged >= 2) g.nontrivial();
}
VP_CHECK("C20", limited_equals_full, 20000, 400000, "at least three iterations were compared") {
    int al = g.pick(LSA); QCase c = makeQ(g, N_TRANSPORT | (al ? N_DR : 0));
    if (c.I->kind == PWAVE) std::static_pointer_cast<WaveProb>(c.I->P)->prec = false;
    if (c.I->kind == PLYAP) throw Discard(); /* has a preconditioner */
    uint32_t seed = g.choice(1 << 20); (void) seed;
    int its = g.integer(1, 8), init = g.integer(0, 4); bool rst = g.boolean();
    auto set = [&](SolversSMLS &s) { s.Verbose = NOOUTPUT; s.LineSearch_LS = (LSAlgoSM) al; s.Max_Iteration = its; s.InitSteptype = (InitStepsizeSetSM) init; s.Accuracy = 0; };
    FullQN<RBFGS> a(c.I->P.get(), &c.X0); a.off = true; set(a); a.Run();
    FullQN<RBroydenFamily> b(c.I->P.get(), &c.X0); b.off = true; set(b); b.Run();
    LM l(c.I->P.get(), &c.X0); l.off = true; l.unit = true; l.LengthSY = its + g.integer(0, 2); l.LMrestart = rst; set(l); l.Run();
    double tol = 1e-9; size_t k = 0, top = std::min(a.xs.size(), std::min(b.xs.size(), l.xs.size()));
    for (; k < top; k++, tol *= 20) {
        double nd = vnrm(a.dirs[k]);
        if (tol > 1e-3 || nd < 1e-4 || !(nd < 1e3) || condOf(*c.I, a.xs[k]) > 1e3) break;
        double s = 1 + vnrm(a.xs[k]);
        g.close(b.fsr[k], a.fsr[k], fs(a.fsr[k]), tol, "objective along the Broyden-class and BFGS runs"); g.close(l.fsr[k], a.fsr[k], fs(a.fsr[k]), tol, "objective along the limited and full-memory runs");
        closeV(g, b.xs[k], a.xs[k], s, 1e2 * tol, "iterates of the Broyden-class and BFGS runs"); closeV(g, l.xs[k], a.xs[k], s, 1e2 * tol, "iterates of the limited and full-memory runs");
    }
    if (k >= 3) g.nontrivial();
}

namespace {
/* conjugate gradients: the documented formulas */
struct CG : public RCG, public Judge {
    CG(const Problem *p, const Variable *x) : RCG(p, x) {}
    long used = 0; bool pending = false; Vector want; 
    virtual void GetSearchDir(void) {
        RCG::GetSearchDir();
        xs.push_back(rawE(x1)); dirs.push_back(rawE(eta1)); fsr.push_back(f1);
        if (off) return;
        Vector P(gf1), sd(gf1); Prob->PreConditioner(x1, gf1, &P); Mani->ScalarTimesVector(x1, -1, P, &sd);
        auto descent = [&](const Vector &d, double &q) { q = Mani->Metric(x1, d, gf1) / ngf1 / ngf1; return q < -std::sqrt(std::numeric_limits<double>::epsilon()); };
        double q; Vector ref(sd);
        if (pending) { ref = want; bool ok = descent(ref, q); if (std::fabs(q + 1.5e-8) < 1e-9) { pending = false; return; } if (!ok) ref = sd; else used++; }
        if (!descent(ref, q)) { if (std::fabs(q + 1.5e-8) < 1e-9) return; Mani->ScalarTimesVector(x1, -1, gf1, &ref); }
        closeVec(*g, Mani, x1, eta1, ref, nr(Mani, x1, ref) + nr(Mani, x1, gf1), 1e-7 * amp, "conjugate gradient direction"); pending = false;
    }
    double amp = 1;
    virtual void UpdateData(void) {
        if (off || !(std::fabs(f2) < 1e8) || vnrm(rawE(x2)) > 1e4) { off = true; RCG::UpdateData(); return; }
        Vector Tg(gf1), Td(gf1), d(eta1), g1(gf1), P1(gf1), P2(gf1), y(gf1);
        Mani->VectorTransport(x1, eta2, x2, g1, &Tg); Mani->VectorTransport(x1, eta2, x2, d, &Td);
        Prob->PreConditioner(x1, g1, &P1); Prob->PreConditioner(x2, gf2, &P2); Mani->VectorLinearCombination(x2, 1, gf2, -1, Tg, &y);
        auto m2 = [&](const Vector &a, const Vector &b) { return Mani->Metric(x2, a, b); };
        double n1 = Mani->Metric(x1, g1, P1), gg = Mani->Metric(x1, g1, g1), pw = std::fabs(m2(gf2, Tg)) / gg;
        double yd = m2(y, Td), FR = m2(gf2, P2) / n1, PR = m2(P2, y) / n1, sg = 0;
        double tiny = std::fabs(yd) / (nr(Mani, x2, y) * nr(Mani, x2, Td)); amp = 1;
        switch (RCGmethod) {
        case FLETCHER_REEVES: sg = FR; break;
        case POLAK_RIBIERE_MOD: sg = std::max(0.0, PR); break;
        case HESTENES_STIEFEL: sg = m2(P2, y) / yd; amp = 1 / tiny; break;
        case FR_PR: sg = PR < -FR ? -FR : PR > FR ? FR : PR; break;
        case DAI_YUAN: sg = m2(gf2, P2) / yd; amp = 1 / tiny; break;
        default: { Vector q(y); Mani->VectorLinearCombination(x2, 1, y, -2 * m2(y, y) / yd, Td, &q); sg = m2(q, P2) / yd; amp = 1 / tiny / tiny; }
        }
        bool restart = pw > 0.1; if (std::fabs(pw - 0.1) < 1e-9 || nr(Mani, x2, y) < 1e-6 || nr(Mani, x2, gf2) < 1e-6 || !(amp < 1e4)) { RCG::UpdateData(); off = true; return; }
        if (restart) sg = 0; else updates++;
        want = P2; Mani->VectorLinearCombination(x2, -1, P2, sg, Td, &want); pending = true;
        double a = std::fabs(sg) * nr(Mani, x2, Td) / nr(Mani, x2, want); if (std::isfinite(a)) amp *= 1 + a;
        RCG::UpdateData();
    }
};
struct Newton : public RNewton, public Judge {
    Newton(const Problem *p, const Variable *x) : RNewton(p, x) {}
    long conv = 0; double xs0 = -1; const Inst *inst = nullptr;
    virtual void GetSearchDir(void) {
        RNewton::GetSearchDir();
        if (off || !(std::fabs(f1) < 1e8) || vnrm(rawE(x1)) > 1e4) { off = true; return; }
        double ng = nr(Mani, x1, gf1); if (ng < 1e-6) return;
        Vector d(eta1), Hd(eta1), q(eta1); Prob->HessianEta(x1, d, &Hd); Mani->VectorLinearCombination(x1, 1, gf1, 1, Hd, &q); Mani->Projection(x1, q, &q); double res = nr(Mani, x1, q);
        Vector z(gf1); Prob->PreConditioner(x1, gf1, &z);
        double lim = ng * std::min(std::pow(ng, theta), kappa), hn = nr(Mani, x1, Hd);
        Vector v = rv(Mani, x1, r), Hv(v); Prob->HessianEta(x1, v, &Hv); hn = std::max(hn, nr(Mani, x1, Hv) / nr(Mani, x1, v) * nr(Mani, x1, d));
        if (!(hn < 1e6) || !(hn < 1e4 * ng) || !(nr(Mani, x1, Hv) < 1e4 * nr(Mani, x1, v)) || !(nr(Mani, x1, Hd) < 1e4 * nr(Mani, x1, d))) return;
        if (vnrm(rawE(x1)) > 1e3 || (xs0 > 0 && vnrm(rawE(x1)) > 1e2 * xs0) || condOf(*inst, rawE(x1)) > 1e3) { off = true; return; }
        if (xs0 < 0) xs0 = vnrm(rawE(x1));
        if (tCGLSSMstatus == LSSM_LCON || tCGLSSMstatus == LSSM_SCON) {
            if (getenv("VP_DBG")) fprintf(stderr, "iter %d ng %g res %g lim %g hn %g d %g inner %d status %d\n", (int) iter, ng, res, lim, hn, nr(Mani, x1, d), (int) innerIter, (int) tCGLSSMstatus);
            conv++;
            g->require(res <= lim * (1 + 1e-6) + 1e-8 * (ng + hn), "Newton direction does not solve its equation to the tolerance");
            g->require((tCGLSSMstatus == LSSM_LCON) == (kappa < std::pow(ng, theta)), "reason given for the end of the inner iteration");
            g->require(innerIter >= Min_Inner_Iter, "too few inner iterations");
        }
        if (tCGLSSMstatus == LSSM_MAXITER) g->require(innerIter == Max_Inner_Iter, "inner iterations when stopped by their number"); else g->require(innerIter < Max_Inner_Iter, "number of inner iterations");
        double sl = Mani->Metric(x1, gf1, d); if (nr(Mani, x1, d) > 1e-10) g->require(sl < 0, "Newton direction does not descend");
        if (innerIter == 0 && tCGLSSMstatus == LSSM_NEGCURVTURE) { Vector m(z); Mani->ScalarTimesVector(x1, -1, z, &m); closeVec(*g, Mani, x1, d, m, nr(Mani, x1, m), 1e-10, "direction of negative curvature"); Vector Hm(m); Prob->HessianEta(x1, m, &Hm); g->require(Mani->Metric(x1, m, Hm) <= 0, "negative curvature reported where there is none"); }
    }
};
} // namespace
VP_CHECK("C20", conjugate_gradient_directions, 40000, 700000, "at least two directions were combined with the previous one") {
    int al = g.pick(std::vector<int>{LSSM_ARMIJO, LSSM_WOLFE, LSSM_STRONGWOLFE, LSSM_EXACT, LSSM_EXACT});
    QCase c = makeQ(g, al ? N_DR : 0); CG s(c.I->P.get(), &c.X0); s.g = &g; s.r = g.data(); setLS(g, s, al); s.RCGmethod = (RCGmethods) g.integer(0, 5);
    std::ostringstream o; o << "formula " << s.RCGmethod << " "; g.addNote(o.str());
    s.Run(); if (s.used >= 2) g.nontrivial();
}
VP_CHECK("C20", newton_directions, 30000, 500000, "the inner iteration converged at least once") {
    int al = g.pick(LSA); QCase c = makeQ(g, al ? N_DR : 0);
    if (!c.I->hess) throw Discard();
    Newton s(c.I->P.get(), &c.X0); s.g = &g; s.r = g.data(); s.inst = c.I.get(); setLS(g, s, al); if (g.boolean()) s.kappa = g.pick(std::vector<double>{0.5, 1e-3}); if (g.boolean()) s.theta = g.pick(std::vector<double>{0.5, 2}); if (g.chance(1, 4)) s.Max_Inner_Iter = g.integer(1, 3);
    std::ostringstream o; o << "kappa=" << s.kappa << " theta=" << s.theta << " inner=" << s.Max_Inner_Iter << " "; g.addNote(o.str());
    s.Run(); if (s.conv) g.nontrivial();
}
VP_CHECK("C20", quadratic_termination, 20000, 300000, "dimension at least three") {
    int n = g.integer(1, 6); SplitMix r = g.data();
    auto W = makeWave(r, n, true, 0); W->A = spdMat(r, n, false, 0.5, 5);
    Euclidean E(n); W->SetDomain(&E); W->SetUseGrad(true); W->SetUseHess(true);
    bool prec = g.chance(1, 4);
    Variable X0(n); X0.NewMemoryOnWrite(); V x0(n); for (auto &e : x0) e = 2 * r.normal(); std::copy(x0.begin(), x0.end(), X0.ObtainWriteEntireData());
    int k = g.pick(std::vector<int>{S_RCG, S_RCG, S_RBFGS, S_RBROYDEN, S_LRBFGS, S_RWRBFGS}); if (prec && k != S_LRBFGS) prec = false;
    if (prec) { W->prec = true; W->pd.resize(n); for (auto &e : W->pd) e = std::exp(0.5 * r.normal()); }
    V sol; { Mat A = W->A; Mat b(n, 1); for (int i = 0; i < n; i++) b(i, 0) = -W->b[i]; /* Gauss */
        std::vector<V> M(n, V(n + 1)); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) M[i][j] = A(i, j).real(); M[i][n] = -W->b[i]; }
        for (int p = 0; p < n; p++) { int q = p; for (int i = p; i < n; i++) if (std::fabs(M[i][p]) > std::fabs(M[q][p])) q = i; std::swap(M[p], M[q]); for (int i = 0; i < n; i++) if (i != p) { double f = M[i][p] / M[p][p]; for (int j = p; j <= n; j++) M[i][j] -= f * M[p][j]; } }
        for (int i = 0; i < n; i++) sol.push_back(M[i][n] / M[i][i]); }
    Run R = makeRun(k, W.get(), &X0); R.ls->LineSearch_LS = LSSM_EXACT; R.ls->Verbose = NOOUTPUT; R.ls->Max_Iteration = n; R.ls->Tolerance = 1e-5; R.ls->Accuracy = 0; R.ls->Initstepsize = 1.0 / std::max(1.0, nrm(W->A)); R.ls->InitSteptype = (InitStepsizeSetSM) g.integer(0, 4); R.ls->LS_alpha = 1e-4;
    int m = 0; if (auto q = dynamic_cast<RCG *>(R.s)) { m = g.integer(0, 5); q->RCGmethod = (RCGmethods) m; }
    if (auto q = dynamic_cast<LRBFGS *>(R.s)) { q->LengthSY = n; q->LMrestart = g.boolean(); }
    std::ostringstream o; o << solverName(k) << " formula " << m << " n=" << n << (prec ? " preconditioned" : "") << " init=" << R.ls->InitSteptype << " "; g.addNote(o.str()); g.label(solverName(k));
    R.s->Run();
    auto &its = R.mon->its;
    /* linear conjugate gradients from the same start */
    V x = x0, gr = W->grad(x), z = gr; if (prec) for (int i = 0; i < n; i++) z[i] *= W->pd[i];
    V d = vscale(-1, z); double ng0 = vnrm(gr);
    for (size_t i = 0; i < its.size(); i++) {
        if (its[i].status != LSSM_SUCCESS) { g.label("search gave up"); return; }
        V Ad(n); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) Ad[a] += W->A(a, b).real() * d[b];
        double al = vdot(gr, z) / vdot(d, Ad); x = vadd(x, al, d); V g2 = vadd(gr, al, Ad), z2 = g2; if (prec) for (int a = 0; a < n; a++) z2[a] *= W->pd[a];
        closeV(g, its[i].x2, x, 1 + vnrm(x) + vnrm(x0), 2e-3, "iterate against linear conjugate gradients");
        double be = vdot(g2, z2) / vdot(gr, z); d = vadd(vscale(-1, z2), be, d); gr = g2; z = z2;
        if (vnrm(gr) < 1e-5 * ng0) break;
    }
    g.require(R.s->Getnormgf() <= 1e-3 * ng0, "the run did not terminate in as many iterations as there are variables");
    g.close(R.s->Getfinalfun(), W->val(sol), fs(W->val(sol)) + ng0, 1e-6, "minimal value");
    if (n >= 3) g.nontrivial();
}
