"""Shape lists. A shape stands for a class definition (see shapes.py)."""
from . import shapes as S

BASIC = list('bBhHiIqQefd?')
STATIC = ['x', 'x3', 'x0', 'c3', 'c0', 'p4', 'p1']
STRINGS = ['cB', 'cH', 'cI', 'cQ', 'N', 't00', 't41', 'tff']
UNICODE = ['u(cB)', 'u(c8)', 'u(N)', 'u(t00)', 'u(cH|utf-16-le)', 'u(cB|latin-1)', 'u(cI|utf-32-be)']
TUPLES = ['T(B;H)', 'T(B;cB;H)', 'T(cB)', 'T(H)', 'T(N;t00)', 'T(T(B;cB);W(H))', 'T(x;B;cB)']
CUSTOM = ['W(B)', 'W(h)', 'W(d)', 'W(?)']
ARRAYS = ['AB(H)', 'A3(H)', 'A0(B)', 'AB(c3)', 'AB(W(B))', 'A2(?)', 'A3B(H)', 'ABH(H)', 'AHI(B)', 'ABB(cB)', 'AB(N)',
          'A2(t00)', 'AB(T(B;cB))', 'AB(S(B,cB))', 'A2H(S(>H,B))', 'AB(AB(B))', 'ABB(AB(H))', 'AB(d)', 'A2(T(H;B))',
          'AB(u(cB))']
NESTED = ['S(>B,H)', 'S(B,S(<H,cB))', 'S(cB)', 'S(Y(H))', 'S()']
TAGGED = ['U(0:B;1:H/cB)', 'U(0:T(B;cB);1:S(>H))', 'C(H)', 'C(cB)', 'C(T(B;cB))', 'C(AB(H))', 'C(S(B,H))', 'C(x3)',
          'T(U(0:B/H);cB)', 'T(C(H);B)', 'A2(U(0:B/cB))', 'AB(C(H))']
AHEAD = ['Y(x2)', 'MH(1:B;258:cB/H)', 'Ms(0:H;1:cB;2:B)', 'L(1:B;2:cB)', 'L(1:H/cH)', 'Y(cB)', 'V(cB)', 'Y(AB(H))']
SELF = ['AB(Z)', 'B,C(Z)', 'B,U(0:H/Z)', 'B,AB(U(0:H/Z))', 'B,T(U(0:H/Z);H)', 'AB(T(B;Z)),H', 'B,AB(Z),C(H)',
        'B,ABH(Z),U(0:B/H)', 'B,C(AB(Z)),cB', 'B,A2(U(0:H/Z)),U(0:B/cB)']
FINAL = ['*', 'u(*)', 'T(B;*)', 'S(B,*)', 'Y(*)', 'V(*)']
FINAL_TAGGED = ['U(0:B/*)', 'U(0:*/H)', 'C(*)']

PLAIN = BASIC + STATIC + STRINGS + UNICODE + TUPLES + CUSTOM + ARRAYS + NESTED + AHEAD
ONE_EACH = ['B', 'h', 'd', 'x3', 'c3', 'p4', 'cB', 'cH', 'N', 't00', 'u(cB)', 'T(B;cB)', 'T(B;H)', 'W(B)', 'AB(H)', 'A2(I)',
            'ABB(cB)', 'A2H(S(>H,B))', 'S(>B,H)', 'U(0:B/cB)', 'C(H)', 'L(1:B;2:cB)', 'Y(cB)']


def alone():
    return PLAIN + [f'B,{t}' for t in TAGGED] + SELF + FINAL + [f'B,{t}' for t in FINAL_TAGGED]


def between(first='B', last='H'):
    """Every kind between two basic fields (behind one if it must be last)."""
    return [f'{first},{k},{last}' for k in PLAIN + TAGGED] + [f'{s},{last}' for s in SELF if 'Z' in s] + [
        f'{first},{k}' for k in FINAL + FINAL_TAGGED]


def ordered(shapes, orders='><'):
    return [o + s for s in shapes for o in orders]


def pairs(kinds=None, lead='B'):
    kinds = kinds or ONE_EACH
    return [f'{lead},{a},{b}' for a in kinds for b in kinds]


def triples(kinds):
    return [f'B,{a},{b},{c}' for a in kinds for b in kinds for c in kinds]


def unique(*lists):
    out = []
    for x in lists:
        out += [s for s in x if s not in out]
    return out


def interleave(*lists):
    out, lists = [], [list(x) for x in lists]
    while any(lists):
        for x in lists:
            if x:
                out.append(x.pop(0))
    return out


def cheap(shape):
    return 'u(' not in shape and 'd' not in shape


SAMPLE = ['B,H,c3,I', 'h,cH,H', 'B,N,H', 'B,t00,I', 'B,u(cB),H', 'B,T(B;cB;H),H', 'H,W(H),B', 'B,AB(H),H', 'B,A2(I),H',
          'B,ABB(cB),H', 'B,A2H(S(>H,B)),H', 'B,S(<H,cB),I', 'B,U(0:B;1:H/cB),H', 'B,C(H),I', 'B,C(T(B;cB)),H',
          'B,L(1:B;2:cB),H', 'B,MH(1:B;258:cB),H', 'Ms(1:B;2:cB/H),H', 'B,AB(Z),H', 'B,U(0:H/Z),cB', 'B,x3,H', 'B,p4,H', 'd,?,f', 'B,cB,*', 'B,AHI(B),I',
          'B,AB(T(B;cB)),H', 'B,AB(C(H)),H']

USER = ['OtB', 'OgH', 'OuB', 'OvB', 'AB(OdB),H', 'A2(OdH),B', 'B,OdB,H', 'T(OdB;H),B', 'B,U(0:OdB/OdH),H', 'B,C(OdB),H', 'AB(T(OdB;H)),B', 'AB(AB(OdB)),B', 'B,AB(U(0:OdB/H)),B',
        'B,ABH(C(OdB)),H', 'AB(S(OdB)),B',  'OlB', 'OfH', 'B,K', 'B,OuB,H', 'B,OvH,H', 'T(B;OuB),H', 'T(B;OvB),H', 'OtB,H,OgB', 'B,OtH,OfH,H', 'x3,OlB,H', 'h,OgB,x', 'T(OtB;B;OgB),H', 'T(OgB),B', 'T(B;T(OtB;H)),cB', 'A2(OtB),B',
        'AB(OgB),H', 'ABH(OlB),B', 'A2B(OtH),H', 'AB(OfH),B', 'AB(T(OtB;H)),B', 'AB(AB(OgB)),B', 'B,U(0:OtB;1:OgH/OlB),B', 'B,U(0:K/OfB),H', 'B,U(0:OgB/H),cB',
        'B,U(0:T(OgB;H)/AB(OtB)),H', 'B,AB(U(0:OgB/OtB)),H', 'L(1:OtB;2:OgB/OlB),H', 'MH(1:OgB;258:OtB),B', 'B,C(OtB),B', 'B,C(OgB),H', 'B,C(K),H', 'B,T(C(OgB);OtB),H',
        'Y(OtB),B', 'V(OgB),B', 'S(OtB,H),B', 'AB(S(OgB)),H', 'S(>OtH,B),OgH', 'B,K,H,K', 'B,T(K;OtB;K),B', 'B,AB(K),H', 'B,A3(K),H', 'OtB,AB(Z),H', 'OgB,B,C(Z),cB', 'B,K,C(Z),B',
        'B,OtB,U(0:H/Z)', 'OtB,*', 'OgB,cB,OlB', 'OtB,N,OtB', 'OlB,t00,OlB,H', 'OgB,u(cB),B', 'W(B),OtB,W(H)', 'OfB,OfH,B', 'I,OfH,I', 'S(B,K),B,K', 'B,U(0:S(OgB)/OgB),H', 'B,C(AB(OgB)),H',
        'AB(OuH),B', 'AB(OvB),B', 'B,C(OuB),H', 'B,C(OvB),H', 'B,U(0:OuB/OvB),H', 'L(1:OvB;2:OuB/OgB),H', 'OuB,OvB', 'Y(OvB),OuB']
