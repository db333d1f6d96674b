// Eigenvectors of quasi-triangular matrices.
#define TLAPACK_NDEBUG
#include "eig.hpp"
#include "tlapack/lapack/trevc.hpp"
static void evecs(Rng& r, Rep& R)
{
    TYPES(
        idx n = r.p(.9) ? r.in(0, 9) : r.in(10, 40); Mat<T, L1> A(r, n, n); std::vector<idx> blk; schur<T>(r, A, blk, .4);
        if (r.p(.1)) for (idx i = 1; i < n; ++i) if (A.at(i, i - 1) == T(0) && (i + 1 >= n || A.at(i + 1, i) == T(0)) && (i < 2 || A.at(i - 1, i - 2) == T(0)) && r.p(.2)) A.at(i, i) = A.at(i - 1, i - 1);   // multiple eigenvalue
        Side sd = r.p(.33) ? Side::Left : r.p(.5) ? Side::Right : Side::Both; HowMny hm = r.p(.33) ? HowMny::All : r.p(.5) ? HowMny::Back : HowMny::Select;
        std::vector<bool> sel0(n); for (idx i = 0; i < n; ++i) sel0[i] = r.p(.5); std::vector<char> sel(n); for (idx i = 0; i < n; ++i) sel[i] = sel0[i];
        // which blocks are computed
        std::vector<idx> pick; idx m = 0; for (idx b = 0; b < blk.size(); ++b) { idx s = (b + 1 < blk.size() ? blk[b + 1] : n) - blk[b]; bool take = hm != HowMny::Select || sel0[blk[b]] || (s == 2 && sel0[blk[b] + 1]); if (take) { pick.push_back(b); m += s; } }
        R.say("n", n, "side", char(sd), "howmny", char(hm)); for (idx i = 0; i < n; ++i) R.say(int(sel0[i])); for (idx b : blk) R.say(b); R.say(";");
        DM Q0 = unitary<T>(r, n); Mat<T, L2> VL(r, n, m); Mat<T, L2> VR(r, n, m); if (hm == HowMny::Back) { put(VL, Q0); put(VR, Q0); } else { VL.fill([](idx, idx) { return true; }, rd<T>::nan()); VR.fill([](idx, idx) { return true; }, rd<T>::nan()); }
        bool lused = sd != Side::Right; bool rused = sd != Side::Left;
        A.save(); VL.save(); VR.save(); auto a = A.view(); auto vl = VL.view(); auto vr = VR.view(); int rc;
        { Work<D> RW(n, 1); Work<T> W(3 * n, 1); LegacyVector<D, idx> rw(n, RW.b.data() + 8); LegacyVector<T, idx> w(3 * n, W.b.data() + 8); rc = trevc(sd, hm, sel, a, vl, vr, rw, w); if (!W.ok() || !RW.ok()) R.fail("frame", "wrote outside the workspace"); }
        if (rc != 0) { R.fail("value", "returned " + str(rc)); return; }
        DM TT = was(A); double nm = fro(TT) + 1; if (!A.kept()) R.fail("frame", "T was modified");
        DM M = hm == HowMny::Back ? mul(mul(Q0, TT), ct(Q0)) : TT;
        for (int side = 0; side < 2; ++side) {
            auto& V = side ? VL : VR; if (!(side ? lused : rused)) { if (!V.kept()) R.fail("frame", "the unused matrix of eigenvectors was changed"); continue; }
            idx col = 0;
            for (idx b : pick) {
                idx i = blk[b]; bool two = i + 1 < n && A.at(i + 1, i) != T(0); Z w = ev(A, i); DM x(n, 1); double big = 0;
                for (idx k = 0; k < n; ++k) { x(k, 0) = two ? Z(real(Z(V.at(k, col))), real(Z(V.at(k, col + 1)))) : Z(V.at(k, col)); if (isn(x(k, 0))) { R.fail("value", "eigenvector is not finite"); return; } big = std::max(big, std::abs(x(k, 0))); }
                if (!(big > 0)) { R.fail("value", std::string(side ? "left" : "right") + " eigenvector " + str(col) + " is zero"); return; }
                DM y = side ? mul(ct(M), x) : mul(M, x); Z e = side ? std::conj(w) : w; double res = 0; for (idx k = 0; k < n; ++k) res = std::max(res, std::abs(y(k, 0) - e * x(k, 0)));
                if (!(res / big <= 1e-12 * nm * (n + 4))) { R.fail("value", std::string(side ? "left" : "right") + " eigenvector for eigenvalue " + str(w) + " has residual " + str(res)); return; }
                if (hm != HowMny::Back) for (idx k = 0; k < n; ++k) if ((side ? k < i : k >= i + (two ? 2 : 1)) && x(k, 0) != Z(0)) { R.fail("value", "eigenvector of a triangular matrix has a nonzero entry outside its support"); return; }
                col += two ? 2 : 1;
            }
            if (!V.kept([](idx, idx) { return true; })) R.fail("frame", "wrote outside the eigenvector matrix");
        })
}
CASE(trevc) { evecs(r, R); }
int main(int argc, char** argv) { return drive(argc, argv); }
