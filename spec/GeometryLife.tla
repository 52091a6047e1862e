---------------------------- MODULE GeometryLife ----------------------------
(* The life of Geometry objects: a set of objects, each a value
     [sites, adj, dx, dy, ph, lat]
   that users relabel, sort, copy and compare.  `lat` identifies the lattice
   description (0 = none). *)
EXTENDS Base

(* permutation p (0-based): site p[j] before becomes site j after *)
PermVec(s, p) == [j \in 1..Len(p) |-> s[p[j] + 1]]
PermMat(m, p) == [a \in 1..Len(p) |-> [b \in 1..Len(p) |-> m[p[a] + 1][p[b] + 1]]]
ApplyPerm(g, p) == [g EXCEPT !.sites = PermVec(@, p), !.adj = PermMat(@, p), !.dx = PermMat(@, p),
                             !.dy = PermMat(@, p), !.ph = PermMat(@, p)]
SameGeom(g, h) == g = h
SameAdjacency(g, h) == g.adj = h.adj /\ g.dx = h.dx /\ g.dy = h.dy /\ g.lat = h.lat

(* site orders; `key` sequences compared lexicographically *)
RECURSIVE KeyLeq(_, _, _)
KeyLeq(a, b, k) == IF k > Len(a) THEN TRUE
                   ELSE IF a[k] < b[k] THEN TRUE ELSE IF a[k] > b[k] THEN FALSE ELSE KeyLeq(a, b, k + 1)
MaxY(g) == Max({g.sites[i][2] : i \in 1..Len(g.sites)})
(* rows are one grid step (2 units) apart; the top row runs left to right, the next right to left *)
RowSign(g, i) == IF ((MaxY(g) - g.sites[i][2]) \div 2) % 2 = 0 THEN 1 ELSE -1
(* WalkCounts(g, k)[m][i]: number of walks of m steps that start at site i *)
RECURSIVE WalkCounts(_, _)
WalkCounts(g, k) ==
  IF k = 0 THEN << >>
  ELSE LET w == TLCEval(WalkCounts(g, k - 1))
           n == Len(g.sites)
       IN Append(w, TLCEval([i \in 1..n |-> SumOver(1..n, LAMBDA j : IF g.adj[i][j] = 0 THEN 0 ELSE IF k = 1 THEN 1 ELSE w[k - 1][j])]))
SortKey(g, mode, i) ==
   CASE mode = "top_alternating" -> <<-g.sites[i][2], RowSign(g, i) * g.sites[i][1]>>
     [] mode = "top_left" -> <<-g.sites[i][2], g.sites[i][1]>>
     [] mode = "bottom_right" -> <<g.sites[i][2], g.sites[i][1]>>
     [] mode = "adjacency" -> LET d == Min2(9, Len(g.sites))
                                  w == TLCEval(WalkCounts(g, d)) IN [k \in 1..d |-> w[k][i]]
SiteSorted(g, mode, p) ==
  IF mode = "adjacency"
  THEN LET d == Min2(9, Len(g.sites))
           w == TLCEval(WalkCounts(g, d))
           key(i) == [k \in 1..d |-> w[k][i]]
       IN \A j \in 1..(Len(p) - 1) : KeyLeq(key(p[j] + 1), key(p[j + 1] + 1), 1)
  ELSE \A j \in 1..(Len(p) - 1) : KeyLeq(SortKey(g, mode, p[j] + 1), SortKey(g, mode, p[j + 1] + 1), 1)
SortModes == {"top_alternating", "top_left", "bottom_right", "adjacency"}
=============================================================================
