------------------------------ MODULE MC_Greens ------------------------------
(* Laws of Greens.tla on all small levels, times, temperatures, grids and frequencies. *)
EXTENDS Greens
CONSTANTS MaxX, MaxB, MaxW
VARIABLES x, b, t, w, f, g
vars == <<x, b, t, w, f, g>>
Grids == {<<-2, 0, 1>>, <<0, 1, 3, 4>>, <<-3, -1, 2>>}
Init == /\ x \in -MaxX..MaxX /\ b \in 1..MaxB /\ t \in 0..b /\ w \in -MaxW..MaxW
        /\ g \in Grids /\ f \in [1..Len(g) -> {0, 1, -2}]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Near(p, q) == Abs(p - q) <= 2
CNear(p, q) == Near(p[1], q[1]) /\ Near(p[2], q[2])
(* particle-hole symmetry, jump of one at time zero, (anti)periodicity *)
ParticleHole == /\ Near(Boltz(1, t, b, x, TRUE), Boltz(1, b - t, b, -x, TRUE))
                /\ x # 0 => Near(Boltz(1, t, b, x, FALSE), -Boltz(1, b - t, b, -x, FALSE))
Jump == Near(FreeTau(x, b, 0) + Boltz(1, 0, b, x, TRUE), V)
Antiperiodic == t > 0 => Near(FreeTau(x, b, t), -FreeTau(x, b, t - b))
Negative == t > 0 => FreeTau(x, b, t) <= 0 /\ FreeTau(x, b, t) >= -V
Reflection == w # 0 => Pole(1, -w, x) = <<Pole(1, w, x)[1], RoundHalfUp(w * V, w * w + x * x)>> /\ CNear(Pole(1, -w, x), CConj(Pole(1, w, x)))
Symmetric == \A fm \in BOOLEAN : LET s == Matsubara(Abs(w) + 1, fm) IN
               /\ Rng(s) = {-z : z \in Rng(s)} /\ \A j \in 1..(Len(s) - 1) : s[j + 1] = s[j] + 2
               /\ (0 \in Rng(s)) = ~fm
Measure == Integral2(g, LAMBDA j : <<1, 0>>) = <<2 * (g[Len(g)] - g[1]), 0>>
Linear == FromSpectralFrq(g, [j \in 1..Len(g) |-> 2 * f[j]], 2 * w + 1)[1] \in
             LET y == 2 * FromSpectralFrq(g, f, 2 * w + 1)[1] IN (y - 40)..(y + 40)
RealSignal == FourierBack(g, [j \in 1..Len(g) |-> <<f[j], 0>>], -w) = CConj(FourierBack(g, [j \in 1..Len(g) |-> <<f[j], 0>>], w))
Static == \A c \in 1..2, d \in 1..2, gm \in 0..2 : Hydro(0, 1, c, d, 1, gm) = <<c * V, 0>> /\ CNear(Hydro(-w, 1, c, d, 1, gm), CConj(Hydro(w, 1, c, d, 1, gm)))
Damped == w > 0 => \A gm \in 0..2 : Hydro(w, 1, 1, 1, 0, gm)[2] >= 0
Laws == ParticleHole /\ Jump /\ Antiperiodic /\ Negative /\ Reflection /\ Symmetric /\ Measure /\ Linear /\ RealSignal /\ Static /\ Damped
=============================================================================
