// B01: particle distributions and bunches generated from them
#include "common.h"

static double ks(std::vector<double> v, std::function<double(double)> cdf) {
    std::sort(v.begin(), v.end());
    double d = 0;
    int n = v.size();
    for (int i = 0; i < n; i++) {
        double f = cdf(v[i]);
        d = std::max(d, std::max(fabs(f - (double)i / n), fabs((i + 1.0) / n - f)));
    }
    return d * sqrt((double)n);
}
static double corr(const std::vector<double> &a, const std::vector<double> &b) {
    int n = a.size();
    double ma = 0, mb = 0, sa = 0, sb = 0, s = 0;
    for (int i = 0; i < n; i++) ma += a[i] / n, mb += b[i] / n;
    for (int i = 0; i < n; i++) {
        s += (a[i] - ma) * (b[i] - mb);
        sa += (a[i] - ma) * (a[i] - ma);
        sb += (b[i] - mb) * (b[i] - mb);
    }
    return s / sqrt(sa * sb);
}
static std::vector<double> column(Distribution &d, int k) {
    std::vector<double> v;
    for (int i = 0; i < d.getNOP(); i++) v.push_back(d.getCoordinate(i, k));
    return v;
}
// random content: thresholds are beyond 7 sigma (KS statistic 4.2: probability < 1e-15 per test)
PBT_TEST(random_content, 1) {
    int dim = c.range(1, 7), n = c.range(300, 3000);
    Distribution d(dim, n);
    PBT_CHECK(c, d.getDIM() == dim && d.getNOP() == n, "reported size");
    std::vector<double> sigma(dim, -1), scale(dim, 1);
    int ng = c.range(0, dim);
    for (int k = 0; k < ng; k++) {
        int i = c.upto(dim - 1);
        sigma[i] = c.logreal(1e-9, 1e3);
        auto before = d.getCoordinate(0, (i + 1) % dim);
        d.generateGaussian(i, sigma[i]);
        scale[i] = 1;
        if (dim > 1) PBT_CHECK(c, before == d.getCoordinate(0, (i + 1) % dim), "filling one axis changed another");
    }
    if (c.coin()) {
        int i = c.upto(dim - 1);
        scale[i] = c.symlog(1e-6, 1e6);
        d.scale(i, scale[i]);
    }
    c.note("dim=%d particles=%d gaussian axes=%d", dim, n, ng);
    std::vector<std::vector<double>> col;
    for (int k = 0; k < dim; k++) {
        auto v = column(d, k);
        for (auto &x : v) x /= scale[k];
        if (sigma[k] < 0) {
            for (double x : v) PBT_CHECK(c, x >= -1 - 1e-12 && x < 1 + 1e-12, "coordinate %g outside [-1,1)", x);
            double q = ks(v, [](double x) { return (x + 1) / 2; });
            PBT_CHECK(c, q < 4.2, "axis %d is not uniform: KS statistic %g", k, q);
        } else {
            double s = sigma[k];
            double q = ks(v, [s](double x) { return 0.5 * erfc(-x / s / sqrt(2.0)); });
            PBT_CHECK(c, q < 4.2, "axis %d is not a normal distribution of the requested width: KS statistic %g", k, q);
        }
        col.push_back(v);
    }
    for (int i = 0; i < dim; i++) {
        std::vector<double> a(col[i].begin(), col[i].end() - 1), b(col[i].begin() + 1, col[i].end());
        PBT_CHECK(c, fabs(corr(a, b)) * sqrt((double)n) < 8, "consecutive particles are correlated");
        for (int j = 0; j < i; j++) PBT_CHECK(c, fabs(corr(col[i], col[j])) * sqrt((double)n) < 8, "axes %d and %d are correlated: %g", j, i, corr(col[i], col[j]));
    }
    // two distributions are independent samples
    Distribution e(dim, n);
    if (ng == 0) PBT_CHECK(c, fabs(corr(column(d, 0), column(e, 0))) * sqrt((double)n) < 8, "two distributions are correlated");
    c.nontrivial();
}

// operation histories on known content
PBT_TEST(operations, 20) {
    int dim = c.range(1, 8), n = c.big(0, 12, 3000, 400);
    std::unique_ptr<Distribution> d(new Distribution(dim, n));
    std::vector<std::vector<double>> m(n, std::vector<double>(dim));
    for (int i = 0; i < n; i++)
        for (int k = 0; k < dim; k++) {
            m[i][k] = c.sym(10);
            d->setCoordinate(i, k, m[i][k]);
        }
    int ops = c.range(1, 12), eff = 0;
    auto cmp = [&](Distribution &D, const char *w) {
        PBT_CHECK(c, D.getDIM() == dim && D.getNOP() == (int)m.size(), "size after %s", w);
        for (int i = 0; i < (int)m.size(); i++)
            for (int k = 0; k < dim; k++)
                PBT_CHECK(c, near(D.getCoordinate(i, k), m[i][k], 1e-12 * (1e-9 + fabs(m[i][k]) + 1e-2 * eff)), "after %s coordinate (%d,%d) is %.12g expected %.12g", w, i, k, D.getCoordinate(i, k), m[i][k]);
    };
    for (int o = 0; o < ops; o++) {
        const char *w = "?";
        switch (c.upto(6)) {
        case 0: {
            w = "scale";
            int k = c.range(-2, dim + 1);
            double f = c.sym(3);
            d->scale(k, f);
            if (k >= 0 && k < dim)
                for (auto &r : m) r[k] *= f;
            break;
        }
        case 1:
        case 2: {
            w = "addCorrelation";
            int a = c.range(-2, dim + 1), b = c.range(-2, dim + 1);
            double f = c.sym(3);
            d->addCorrelation(a, b, f);
            if (a >= 0 && a < dim && b >= 0 && b < dim && a != b) {
                for (auto &r : m) r[b] += f * r[a];
                eff++;
            }
            break;
        }
        case 3: {
            w = "setCoordinate";
            int i = c.range(-2, (int)m.size() + 1), k = c.range(-2, dim + 1);
            double v = c.sym(10);
            bool in = i >= 0 && i < (int)m.size() && k >= 0 && k < dim;
            d->setCoordinate(i, k, v);
            if (in) m[i][k] = v;
            PBT_CHECK(c, d->getCoordinate(i, k) == (in ? v : 0.0), "read back (%d,%d) gives %g", i, k, d->getCoordinate(i, k));
            break;
        }
        case 4: {
            w = "buffer round trip";
            int sz = dim * (int)m.size();
            int bad = c.pick({0, 0, 1, -1});
            if (sz + bad < 0) bad = 0;
            std::vector<double> buf(sz + 2, 7.25);
            bool threw = false;
            try {
                d->bufferData(buf.data(), sz + bad);
            } catch (IOexception &) {
                threw = true;
            }
            PBT_CHECK(c, threw == (bad != 0), "bufferData with size %d for %d values: %s", sz + bad, sz, threw ? "threw" : "accepted");
            if (!bad) {
                PBT_CHECK(c, buf[sz] == 7.25 && buf[sz + 1] == 7.25, "bufferData wrote beyond the buffer");
                std::unique_ptr<Distribution> e(new Distribution(dim, m.size()));
                e->fromBuffer(buf.data(), sz);
                d = std::move(e);
            } else {
                bool t2 = false;
                try {
                    d->fromBuffer(buf.data(), sz + bad);
                } catch (IOexception &) {
                    t2 = true;
                }
                PBT_CHECK(c, t2, "fromBuffer accepted a buffer of wrong size");
            }
            break;
        }
        case 5: {
            w = "subDist";
            int idx = c.range(-1, (int)m.size() + 1), num = c.range(0, (int)m.size() + 2);
            std::unique_ptr<Distribution> s(d->subDist(idx, num));
            PBT_CHECK(c, s->getNOP() == num && s->getDIM() == dim, "subset of %d particles has %d", num, s->getNOP());
            for (int i = 0; i < num; i++)
                for (int k = 0; k < dim; k++)
                    if (idx + i >= 0 && idx + i < (int)m.size())
                        PBT_CHECK(c, s->getCoordinate(i, k) == d->getCoordinate(idx + i, k), "subset particle %d differs from the original", i);
            break;
        }
        default: {
            w = "generateGaussian";
            int k = c.range(-2, dim + 1);
            double s = c.logreal(0.1, 10);
            d->generateGaussian(k, s);
            if (k >= 0 && k < dim)
                for (size_t i = 0; i < m.size(); i++) {
                    double v = d->getCoordinate(i, k);
                    PBT_CHECK(c, fabs(v) < 12 * s, "%g drawn from a gaussian of width %g", v, s);
                    m[i][k] = v;
                }
        }
        }
        cmp(*d, w);
    }
    c.note("dim=%d particles=%d operations=%d effective correlations=%d", dim, n, ops, eff);
    if (n > 1 && dim > 1) c.nontrivial();
}

PBT_TEST(bunch_from_distribution, 20) {
    int dim = c.range(1, 8), n = c.big(1, 12, 3000, 400);
    Distribution d(dim, n);
    for (int i = 0; i < n; i++)
        for (int k = 0; k < dim; k++) d.setCoordinate(i, k, k == 6 ? c.sym(1e-9) : c.sym(3));
    double t0 = c.sym(1e-8), q = c.symlog(1e-3, 1e9), ms = c.logreal(1e-3, 1e9);
    Vector X = gvec(c, 5), P = gvec(c, 50);
    Bunch b(&d, t0, X, P, q, ms);
    c.note("dim=%d particles=%d t0=%g pos=%s mom=%s charge=%g mass=%g", dim, n, t0, sv(X).c_str(), sv(P).c_str(), q, ms);
    PBT_CHECK(c, b.getNOP() == n, "%d particles created from %d", b.getNOP(), n);
    PBT_CHECK(c, near(b.getTotalCharge(), q * n * cE, 1e-12 * fabs(q * n * cE)), "total charge %g C", b.getTotalCharge());
    std::vector<std::array<double, 6>> m;
    for (int i = 0; i < n; i++) {
        auto g = [&](int k) { return k < dim ? d.getCoordinate(i, k) : 0.0; };
        ChargedParticle *p = b.getParticle(i);
        PBT_CHECK(c, p->getNP() == 1, "trajectory has %d points", p->getNP());
        double t = t0 + g(6);
        std::array<double, 6> r = {X.x + g(0), X.y + g(1), X.z + g(2), P.x + g(3), P.y + g(4), P.z + g(5)};
        PBT_CHECK(c, near(p->TrajTime(0), t, 1e-14 * 1e-8) && p->getTime() == p->TrajTime(0), "start time %g expected %g", p->TrajTime(0), t);
        PBT_CHECK(c, nearv(p->TrajPoint(0), Vector(r[0], r[1], r[2]), 1e-14 * 10) && samev(p->getPosition(), p->TrajPoint(0)), "position");
        PBT_CHECK(c, nearv(p->TrajMomentum(0), Vector(r[3], r[4], r[5]), 1e-14 * 100) && samev(p->getMomentum(), p->TrajMomentum(0)), "momentum");
        PBT_CHECK(c, near(p->getCharge(), q * cE, 1e-12 * fabs(q * cE)), "particle charge");
        m.push_back(r);
    }
    // correlations keep the means and act only on the dependent axis
    int nc = c.range(0, 3), eff = 0;
    for (int o = 0; o < nc; o++) {
        int a = c.range(-1, 6), e = c.range(-1, 6);
        double f = c.sym(2);
        b.addCorrelation(a, e, f);
        if (a < 0 || a > 5 || e < 0 || e > 5 || a == e) continue;
        ld mean = 0;
        for (auto &r : m) mean += r[a];
        mean /= n;
        for (auto &r : m) r[e] += f * (r[a] - (double)mean);
        eff++;
    }
    for (int i = 0; i < n; i++) {
        ChargedParticle *p = b.getParticle(i);
        auto &r = m[i];
        PBT_CHECK(c, p->getNP() == 1, "trajectory has %d points after adding a correlation", p->getNP());
        PBT_CHECK(c, nearv(p->getPosition(), Vector(r[0], r[1], r[2]), 1e-10) && nearv(p->getMomentum(), Vector(r[3], r[4], r[5]), 1e-10), "particle %d after correlations at %s / %s", i,
                  sv(p->getPosition()).c_str(), sv(p->getMomentum()).c_str());
        PBT_CHECK(c, samev(p->getPosition(), p->TrajPoint(0)) && samev(p->getMomentum(), p->TrajMomentum(0)), "trajectory and current coordinates differ");
        PBT_CHECK(c, near(p->TrajTime(0), t0 + (dim > 6 ? d.getCoordinate(i, 6) : 0.0), 1e-22), "start time changed");
    }
    // plain bunch
    Bunch e(n, q, ms);
    PBT_CHECK(c, e.getNOP() == n && near(e.getTotalCharge(), q * n * cE, 1e-12 * fabs(q * n * cE)), "bunch of %d particles", n);
    if (n > 1 && dim > 1) c.nontrivial();
}
PBT_MAIN("random distributions (dimension, particle number, gaussian and uniform axes) tested with Kolmogorov-Smirnov and correlation statistics beyond 7 sigma; operation histories (scale, correlate, set, "
         "buffer, subset, out-of-range indices) against a table model; bunches generated from known distributions with references and correlations. non-trivial: more than one particle and axis")
