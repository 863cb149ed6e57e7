"M02: conversions between rectangular and polar form, and complex values from their parts, element by element."
from vp import *
RULE = "every element of the result is the conversion of the corresponding elements, and nothing else is written"
PRE = '#include <vsip/complex.hpp>\n'
def tus(tier):
    o = []
    for c, t, m in (('cfloat', 'float', 'float'), ('cdouble', 'double', 'double'), ('cfloat', 'float', 'double')):
        z = '%s_%s' % (c, m)
        o.append(Ob('rtp_s_' + z, [PT(m, 'c'), PT(c, 'a')], 'recttopolar(a[0],c[0],c[1]);', 'c[0]=std::abs(a[0]);c[1]=std::arg(a[0]);'))
        o.append(Ob('rtp_v_' + z, [PT(m, 'c'), PT(m, 'd'), PT(c, 'a'), N('n', 0, 4), S('s'), S('q')], 'VW(%s,r,c,n,q) VW(%s,th,d,n,1) VW(%s,z,a,n,s) recttopolar(z,r,th);' % (m, m, c), 'for (length_type i=0;i<n;++i) { c[i*q]=std::abs(a[i*s]); d[i]=std::arg(a[i*s]);}'))
        o.append(Ob('rtp_m_' + z, [PT(m, 'c'), PT(m, 'd'), PT(c, 'a'), N('n', 0, 3), N('k', 0, 3), S('s')], 'MW(%s,r,c,n,1,k,20) MW(%s,th,d,n,k,k,1) MW(%s,z,a,n,s,k,7*s) recttopolar(z,r,th);' % (m, m, c), 'for (length_type i=0;i<n;++i) for (length_type j=0;j<k;++j) { c[i+20*j]=std::abs(a[(i+7*j)*s]); d[i*k+j]=std::arg(a[(i+7*j)*s]);}'))
        o.append(Ob('rtp_t_' + z, [PT(m, 'c'), PT(m, 'd'), PT(c, 'a'), N('n', 0, 2), N('k', 0, 2), N('l', 0, 2)], 'TW(%s,r,c,n,1,k,20,l,100) TW(%s,th,d,n,k*l,k,l,l,1) TW(%s,z,a,n,49,k,7,l,1) recttopolar(z,r,th);' % (m, m, c), 'for (length_type i=0;i<n;++i) for (length_type j=0;j<k;++j) for (length_type e=0;e<l;++e) { c[i+20*j+100*e]=std::abs(a[49*i+7*j+e]); d[(i*k+j)*l+e]=std::arg(a[49*i+7*j+e]);}'))
    for c, t in (('cfloat', 'float'), ('cdouble', 'double')):
        o.append(Ob('ptr_s_' + t, [PT(c, 'c'), PT(t, 'a')], 'c[0]=polartorect(a[0],a[1]); c[1]=polartorect(a[2]);', 'c[0]=std::polar(a[0],a[1]); c[1]=%s(a[2],0);' % c))
        for nm, e, x in (('vv', 'x,y', 'std::polar(a[i*s],b[i*q])'), ('vs', 'x,g', 'std::polar(a[i*s],g)'), ('sv', 'g,y', 'std::polar(g,b[i*q])'), ('v', 'x', '%s(a[i*s],0)' % c)):
            o.append(Ob('ptr_%s_%s' % (nm, t), [PT(c, 'c'), PT(t, 'a'), PT(t, 'b'), (t, 'g', ''), N('n', 0, 4), S('s'), S('q')], 'VW(%s,z,c,n,q) VW(%s,x,a,n,s) VW(%s,y,b,n,q) z=polartorect(%s);' % (c, t, t, e), 'for (length_type i=0;i<n;++i) c[i*q]=%s;' % x))
        o.append(Ob('ptr_m_' + t, [PT(c, 'c'), PT(t, 'a'), PT(t, 'b'), N('n', 0, 3), N('k', 0, 3)], 'MW(%s,z,c,n,k,k,1) MW(%s,x,a,n,1,k,9) MW(%s,y,b,n,k,k,1) z=polartorect(x,y); ' % (c, t, t), 'for (length_type i=0;i<n;++i) for (length_type j=0;j<k;++j) c[i*k+j]=std::polar(a[i+9*j],b[i*k+j]);'))
        o.append(Ob('ptr_m1_' + t, [PT(c, 'c'), PT(t, 'a'), N('n', 0, 3), N('k', 0, 3)], 'MW(%s,z,c,n,k,k,1) MW(%s,x,a,n,1,k,9) z=polartorect(x); ' % (c, t), 'for (length_type i=0;i<n;++i) for (length_type j=0;j<k;++j) c[i*k+j]=a[i+9*j];'))
        o.append(Ob('cmplx_v_' + t, [PT(c, 'c'), PT(t, 'a'), PT(t, 'b'), N('n', 0, 4), S('s'), S('q')], 'VW(%s,z,c,n,s) VW(%s,x,a,n,s) VW(%s,y,b,n,q) z=cmplx(x,y);' % (c, t, t), 'for (length_type i=0;i<n;++i) c[i*s]=%s(a[i*s],b[i*q]);' % c))
        o.append(Ob('cmplx_m_' + t, [PT(c, 'c'), PT(t, 'a'), PT(t, 'b'), N('n', 0, 3), N('k', 0, 3)], 'MW(%s,z,c,n,k,k,1) MW(%s,x,a,n,1,k,9) MW(%s,y,b,n,k,k,1) z=cmplx(x,y);' % (c, t, t), 'for (length_type i=0;i<n;++i) for (length_type j=0;j<k;++j) c[i*k+j]=%s(a[i+9*j],b[i*k+j]);' % c))
        o.append(Ob('cmplx_t_' + t, [PT(c, 'c'), PT(t, 'a'), PT(t, 'b'), N('n', 0, 2), N('k', 0, 2), N('l', 0, 2)], 'TW(%s,z,c,n,k*l,k,l,l,1) TW(%s,x,a,n,1,k,9,l,50) TW(%s,y,b,n,k*l,k,l,l,1) z=cmplx(x,y);' % (c, t, t), 'for (length_type i=0;i<n;++i) for (length_type j=0;j<k;++j) for (length_type e=0;e<l;++e) c[(i*k+j)*l+e]=%s(a[i+9*j+50*e],b[(i*k+j)*l+e]);' % c))
        # in place: parts of the destination
        o.append(Ob('parts_' + t, [PT(c, 'c'), PT(t, 'a'), N('n', 0, 4), S('s')], 'VW(%s,z,c,n,s) VW(%s,x,a,n,1) z.real()=x; z.imag()=z.real()+2*z.imag();' % (c, t), 'for (length_type i=0;i<n;++i) c[i*s]=%s(a[i],a[i]+2*c[i*s].imag());' % c))
        o.append(Ob('self_' + t, [PT(c, 'c'), N('n', 0, 4), S('s')], 'VW(%s,z,c,n,s) z=cmplx(z.imag(),z.real());' % c, 'for (length_type i=0;i<n;++i) c[i*s]=%s(c[i*s].imag(),c[i*s].real());' % c))
        o.append(Ob('back_' + t, [PT(c, 'c'), N('n', 0, 4), S('s')], 'VW(%s,z,c,n,s) recttopolar(z,z.real(),z.imag());' % c, 'for (length_type i=0;i<n;++i) c[i*s]=%s(std::abs(c[i*s]),std::arg(c[i*s]));' % c))
        o.append(Ob('partsm_' + t, [PT(c, 'c'), PT(t, 'a'), N('n', 0, 3), N('k', 0, 3)], 'MW(%s,z,c,n,k,k,1) MW(%s,x,a,n,1,k,9) z.imag()=x;' % (c, t), 'for (length_type i=0;i<n;++i) for (length_type j=0;j<k;++j) c[i*k+j]=%s(c[i*k+j].real(),a[i+9*j]);' % c))
    return chunks(o, 6, 'cx', P + PRE)
