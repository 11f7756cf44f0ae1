"""not a property: the models of the x86 intrinsics against the processor (python3-vt -m engine.run selftest)"""
from .common import *
BOUNDS = 'random and boundary inputs'
N256 = {8: 32, 16: 16, 32: 8, 64: 4}


def cases():
    out = []
    A = 'use std::arch::x86_64::*; use std::mem::transmute as t; '

    def bin(nm, e, bits, ty='i', args='x, y', cpus=('avx2',)):
        k = lanes(e, bits)
        T = '__m%d%s' % (bits, ty)
        out.append(Case('st_' + nm, A + 'let x: %s = t(LD!(a, %s)); let y: %s = t(LD!(b, %s)); let r: %s = t(%s(%s)); ST!(o, %s, r); 0' % (
            T, vec(e, bits), T, vec(e, bits), vec(e, bits), nm, args, vec(e, bits)), [In('a', e, k), In('b', e, k), Out('o', e, k)], lambda c: [], cpus=cpus))
    for bits, pre in ((128, '_mm'), (256, '_mm256')):
        for w in (8, 16):
            bin(pre + '_avg_epu%d' % w, 'u%d' % w, bits)
            for op in ('adds_ep', 'subs_ep'):
                for sg in 'iu':
                    bin(pre + '_%s%s%d' % (op, sg, w), sg + str(w), bits)
        for op in ('add', 'sub', 'cmpeq', 'cmpgt'):
            for w in (8, 16, 32, 64):
                bin(pre + '_%s_epi%d' % (op, w), 'i%d' % w, bits)
        for op in ('max', 'min'):
            for w in (8, 16, 32):
                for sg in 'iu':
                    bin(pre + '_%s_ep%s%d' % (op, sg, w), sg + str(w), bits)
        for op in ('hadd', 'hsub'):
            for w in (16, 32):
                bin(pre + '_%s_epi%d' % (op, w), 'i%d' % w, bits)
            bin(pre + '_%ss_epi16' % op, 'i16', bits)
        for w in (8, 16, 32):
            bin(pre + '_sign_epi%d' % w, 'i%d' % w, bits)
            bin(pre + '_abs_epi%d' % w, 'i%d' % w, bits, args='x')
        for nm in ('mulhi_epi16', 'mulhi_epu16', 'mulhrs_epi16', 'maddubs_epi16', 'madd_epi16', 'shuffle_epi8', 'packs_epi16', 'packs_epi32', 'packus_epi16', 'packus_epi32', 'sad_epu8',
                   'mul_epi32', 'mul_epu32', 'mullo_epi16', 'mullo_epi32', 'unpacklo_epi8', 'unpackhi_epi8', 'unpacklo_epi16', 'unpackhi_epi16', 'unpacklo_epi32', 'unpackhi_epi32', 'unpacklo_epi64', 'unpackhi_epi64'):
            bin(pre + '_' + nm, 'i8', bits)
        for nm in ('sllv_epi32', 'srlv_epi32', 'srav_epi32', 'sllv_epi64', 'srlv_epi64'):
            bin(pre + '_' + nm, 'i' + nm[-2:], bits)
            bin(pre + '_' + nm, 'i' + nm[-2:], bits, args='x, %s_and_si%d(y, %s_set1_epi%s%s(63))' % (pre, bits, pre, nm[-2:], 'x' if nm[-2:] == '64' else ''))
            out[-1].name += 'm'
        for nm in ('sll_epi16', 'srl_epi16', 'sra_epi16', 'sll_epi32', 'srl_epi32', 'sra_epi32', 'sll_epi64', 'srl_epi64'):
            y = 'y' if bits == 128 else '_mm256_castsi256_si128(y)'
            bin(pre + '_' + nm, 'i' + nm[-2:], bits, args='x, _mm_and_si128(%s, _mm_set_epi64x(0, 63))' % y)
            bin(pre + '_' + nm, 'i' + nm[-2:], bits, args='x, ' + y)
            out[-1].name += 'f'
        for nm, ty, e in (('permutevar_ps', '', 'f32'), ('permutevar_pd', 'd', 'f64')):
            bin(pre + '_' + nm, e, bits, ty, 'x, t(y)')
        bin(pre + '_i32gather_epi32', 'i32', bits, args='a as *const i32, %s_and_si%d(x, %s_set1_epi32(3)), 4' % (pre, bits, pre))
        bin(pre + '_i64gather_epi64', 'i64', bits, args='a as *const i64, %s_and_si%d(x, %s_set1_epi64x(1)), 8' % (pre, bits, pre))
        bin(pre + '_maskload_epi32', 'i32', bits, args='a as *const i32, %s_set1_epi64x(-1i64 << 32)' % pre)
        for ty, e, s in (('', 'f32', 'ps'), ('d', 'f64', 'pd')):
            for op in ('add', 'sub', 'mul', 'div', 'min', 'max', 'hadd', 'hsub', 'addsub', 'and', 'or', 'xor', 'andnot', 'unpacklo', 'unpackhi'):
                bin('%s_%s_%s' % (pre, op, s), e, bits, ty)
            for op in ('sqrt', 'ceil', 'floor'):
                bin('%s_%s_%s' % (pre, op, s), e, bits, ty, 'x')
        bin(pre + '_dp_ps', 'f32', bits, '', 'x, y, 0x71')
    bin('_mm256_permutevar8x32_epi32', 'i32', 256)
    bin('_mm256_permutevar8x32_ps', 'f32', 256, '', 'x, t(y)')
    bin('_mm_insert_ps', 'f32', 128, '', 'x, y, 0x95')
    bin('_mm_cmplt_ss', 'f32', 128, '')
    bin('_mm_cmpeq_sd', 'f64', 128, 'd')
    for op in ('eq', 'lt', 'le', 'gt', 'ge', 'neq'):
        out.append(Case('st_comi' + op, A + 'let x: __m128 = t(LD!(a, f32x4)); let y: __m128 = t(LD!(b, f32x4)); (_mm_comi%s_ss(x, y) + 2 * _mm_ucomi%s_ss(x, y)) as usize' % (op, op),
                        [In('a', 'f32', 4), In('b', 'f32', 4)], lambda c: [], cpus=('avx2',)))
    return out
