#!/usr/bin/env python3
"""Generates spec/Tables.tla: fixed-point function tables (TLC has only 32-bit integers)."""
import os
from decimal import Decimal, getcontext
getcontext().prec = 40
PI = Decimal("3.14159265358979323846264338327950288419716939937510")


def dsin(x):
    x = x % (2 * PI)
    if x > PI:
        return -dsin(x - PI)
    t, s, n = x, x, 1
    while abs(t) > Decimal(10) ** -35:
        t = -t * x * x / ((2 * n) * (2 * n + 1))
        s += t
        n += 1
    return s


def rnd(x):
    return int(x.to_integral_value(rounding="ROUND_HALF_EVEN"))


def seq(v):
    out, line = [], "    "
    for j, a in enumerate(v):
        tok = "%d%s" % (a, "," if j < len(v) - 1 else "")
        if len(line) + len(tok) > 96:
            out.append(line.rstrip())
            line = "    "
        line += tok + " "
    out.append(line.rstrip())
    return "<<\n" + "\n".join(out) + ">>"


LN = [rnd(Decimal(t).ln() * 125000) for t in range(1, 301)]
SQ = [rnd(Decimal(t).sqrt() * 125000) for t in range(1, 301)]
SIN = [rnd(dsin(2 * PI * j / 720) * 1000000) for j in range(720)]
SINT = [rnd(dsin(2 * PI * j / 720) * 1000000 / (2 * PI)) for j in range(720)]
E2 = [rnd(Decimal(2) ** (Decimal(j) / 100) * 10000) for j in range(100)]
L2 = [rnd(Decimal(t).ln() / Decimal(2).ln() * 100000) for t in range(1, 301)]
GS = {sg: [rnd((-(Decimal(j) ** 2) / (2 * sg * sg)).exp() * 10000) for j in range(61)] for sg in (2, 3, 4)}
T10 = [rnd((-2 * (Decimal(j) / 48) ** 2 * Decimal(10).ln()).exp() * 10000) for j in range(73)]
txt = """------------------------------- MODULE Tables -------------------------------
(* Generated by tools/mktables.py.  Fixed-point tables:                       *)
(*   LnT[t]   = 125000 ln t,  SqrtT[t] = 125000 sqrt t,  Log2T[t] = 100000 log2 t *)
(*   TenT[j+1] = 10^4 10^(-2 (j/48)^2)                                         *)
(*   GaussT[s][j+1] = 10^4 exp(-j^2 / 2 s^2)                                   *)
(*   SinT[j+1]  = 10^6 sin(2 pi j / 720),  SinTurn[j+1] = 10^6 sin(2 pi j / 720) / 2 pi *)
(* The assumptions below are checked by TLC whenever the module is loaded.    *)
EXTENDS Integers, Sequences
LnT == %s
SqrtT == %s
Log2T == %s
Exp2T == %s
SinT == %s
SinTurn == %s
TenT == %s
GaussT == <<<<>>, %s, %s, %s>>
SinAt(j) == SinT[(j %% 720) + 1]
CosAt(j) == SinT[((j + 180) %% 720) + 1]
SinTurnAt(j) == SinTurn[(j %% 720) + 1]

Within(a, b, tol) == (a - b) <= tol /\\ (b - a) <= tol
ASSUME \\A a \\in 1..17 : \\A b \\in 1..17 : Within(LnT[a * b], LnT[a] + LnT[b], 2)
ASSUME \\A a \\in 1..17 : \\A b \\in 1..17 : Within(Log2T[a * b], Log2T[a] + Log2T[b], 2)
ASSUME \\A j \\in 0..49 : Within((Exp2T[j + 1] * Exp2T[j + 51]) \\div 10000, (Exp2T[26 + j] * Exp2T[26 + j]) \\div 10000, 4)
ASSUME \\A a \\in 1..17 : SqrtT[a * a] = 125000 * a
ASSUME \\A a \\in 1..298 : LnT[a] < LnT[a + 1] /\\ (a > 1 => LnT[a + 1] - LnT[a] <= LnT[a] - LnT[a - 1])
ASSUME \\A j \\in 0..719 : SinAt(360 - j) = SinAt(j) /\\ SinAt(-j) = -SinAt(j)
ASSUME SinAt(180) = 1000000 /\\ SinAt(60) = 500000 /\\ Within(SinTurnAt(180), 159155, 0)
ASSUME TenT[1] = 10000 /\\ TenT[25] = 3162 /\\ TenT[49] = 100
ASSUME GaussT[2][1] = 10000 /\\ \\A j \\in 0..29 : Within(GaussT[2][j + 1], GaussT[4][2 * j + 1], 0)
ASSUME \\A j \\in 0..19 : GaussT[3][3 * j + 1] = GaussT[2][2 * j + 1]
ASSUME \\A g \\in 2..4 : \\A j \\in 1..12 : Within((GaussT[g][3 * j + 1] * GaussT[g][4 * j + 1]) \\div 10000, GaussT[g][5 * j + 1], 1)
ASSUME \\A j \\in 0..719 : Within((SinAt(j) \\div 100) * (SinAt(j) \\div 100) + (CosAt(j) \\div 100) * (CosAt(j) \\div 100), 100000000, 40000)
=============================================================================
""" % tuple(seq(v) for v in (LN, SQ, L2, E2, SIN, SINT, T10, GS[2], GS[3], GS[4]))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Tables.tla"), "w").write(txt)

# dilations of the affine Wigner distributions at u = j/32, j = 0..128, times 10^6
def lam_b(u):
    return Decimal(1) if u == 0 else u / (1 - (-u).exp())
def lam_u(u):
    return (1 + (u / 2) ** 2).sqrt() + u / 2
def lam_d(u):
    return (1 + u / 4) ** 2
def tab(f, sgn):
    return seq([rnd(f(sgn * Decimal(j) / 32) * 1000000) for j in range(129)])
txt = """------------------------------- MODULE Dilate -------------------------------
(* Generated by tools/mktables.py.  The dilations L(u) of the affine Wigner        *)
(* distributions at u = j/32, j = 0..128, times 10^6: BertP[j+1] = L(u), BertN = L(-u)  *)
(* with L(u) = u / (1 - exp(-u)); UntP, UntN with L(u) = sqrt(1 + u^2/4) + u/2;         *)
(* FlaP, FlaN with L(u) = (1 + u/4)^2.  MuB = sqrt(L(u) L(-u)) for Bertrand.             *)
EXTENDS Integers, Sequences
BertP == %s
BertN == %s
UntP == %s
UntN == %s
FlaP == %s
FlaN == %s
MuB == %s
DNear(a, b, tol) == (a - b) <= tol /\\ (b - a) <= tol
\\* L(u) - L(-u) = u for all three; the Unterberger dilations are inverse to each other
ASSUME \\A j \\in 0..128 : /\\ DNear(BertP[j + 1] - BertN[j + 1], 31250 * j, 1)
                        /\\ DNear(UntP[j + 1] - UntN[j + 1], 31250 * j, 1)
                        /\\ DNear(FlaP[j + 1] - FlaN[j + 1], 31250 * j, 1)
ASSUME \\A j \\in 0..128 : DNear((UntP[j + 1] \\div 100) * (UntN[j + 1] \\div 100), 100000000, 80000)
ASSUME \\A j \\in 0..128 : DNear((MuB[j + 1] \\div 100) * (MuB[j + 1] \\div 100), (BertP[j + 1] \\div 100) * (BertN[j + 1] \\div 100), 60000)
=============================================================================
""" % (tab(lam_b, 1), tab(lam_b, -1), tab(lam_u, 1), tab(lam_u, -1), tab(lam_d, 1), tab(lam_d, -1),
       seq([rnd((lam_b(Decimal(j) / 32) * lam_b(-Decimal(j) / 32)).sqrt() * 1000000) for j in range(129)]))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Dilate.tla"), "w").write(txt)
