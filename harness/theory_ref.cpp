// reference for the kinetic-theory program, compiled without instrumentation
#include <cmath>
#include <complex>
#include <cstdlib>
#include <vector>

// real part, imaginary part and sum of the absolute terms of every row
void theory_reference(unsigned N, unsigned steps, std::vector<double>& re, std::vector<double>& im, std::vector<double>& scale)
{
    const double pi = 3.14159265358979323846;
    re.assign(steps, 0.);
    im.assign(steps, 0.);
    scale.assign(steps, 0.);
    auto dist = [N](unsigned a, unsigned b) {
        const unsigned d = a > b ? a - b : b - a;
        return d < N - d ? d : N - d;
    };
    std::vector<double> ev(N);
    for(unsigned d = 0; d < N; ++d) {
        const unsigned l = dist(0, d);
        ev[d]            = l == 0 ? 0.5 : l % 2 == 0 ? 0. : std::sin(pi / 2. * l) / (pi * l);
    }
    static const std::complex<double> powers[] = {{1., 0.}, {0., -1.}, {-1., 0.}, {0., 1.}};
    for(unsigned s = 0; s < steps; ++s) {
        const double x = 2. * s * 0.01;
        std::vector<std::complex<double>> c(N);
        for(unsigned i = 0; i < N; ++i) c[i] = powers[dist(0, i) % 4] * ::jn(int(dist(0, i)), x);
        for(unsigned i = 0; i < N; ++i)
            for(unsigned j = 0; j < N; ++j) {
                const double e = ev[i > j ? i - j : j - i];
                if(e == 0.) continue;
                const double a = c[i].real() * c[j].real() + c[i].imag() * c[j].imag(),
                             b = c[i].imag() * c[j].real() - c[i].real() * c[j].imag();
                re[s] += e * a;
                im[s] += e * b;
                scale[s] += std::fabs(e) * (std::fabs(a) + std::fabs(b));
            }
    }
}
