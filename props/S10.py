"""S10: the library's own Fourier transform (the backend of configurations without FFTW): the same obligations as S08 and S09, with
the library compiled in that configuration."""
import S08, S09
RULE = "the elements of the result are those of the defining sum"
def tus(tier):
    r = []
    for m in (S08, S09):
        for t in m.tus(tier):
            p = t.prelude.replace('#include <ovxx/fftw/fft.cpp>\n', '')
            assert p != t.prelude
            t.prelude = '#include <ovxx/config.hpp>\n#undef OVXX_FFTW\n#define OVXX_DFT_FFT 1\n' + p
            t.name = 'dft_%s_%s' % (m.__name__.lower(), t.name)
            for o in t.obs: o.id = m.__name__.lower() + '_' + o.id
            r.append(t)
    return r
