------------------------------ MODULE MC_Frames ------------------------------
(* Chains of frames and points placed in them. *)
EXTENDS Frames
CONSTANT Variant, Depth
VARIABLES fs, cards, pt
vars == <<fs, cards, pt>>
Dirs == {<<1,0,0>>, <<0,-1,0>>, <<0,0,1>>, <<3,4,0>>, <<0,-4,3>>, <<-4,3,0>>}
As == {<<0,0,0>>, <<1,-2,3>>}
Init == fs = <<GlobalFrame>> /\ cards = <<>> /\ pt = <<>>
Make(t, f, a, b, c) ==
  LET g == FrameOn(t, f, a, b, c) IN
  CASE Variant = "left" -> [g EXCEPT !.y = VMul(-1, g.y)]
    [] Variant = "chain" -> [FrameOn(t, GlobalFrame, a, b, c) EXCEPT !.o = FrameOn(t, GlobalFrame, a, b, c).o]
    [] OTHER -> g
Define == /\ Len(fs) <= Depth /\ pt = <<>>
          /\ \E a \in As, u \in Dirs, w \in Dirs, j \in {0, 1}, t \in {"R", "C"} :
             LET f == fs[Len(fs)] b == VAdd(a, VMul(2, u)) c == VAdd(VAdd(a, w), VMul(j, u)) IN
             /\ f.t = "R" /\ Definable(a, b, c) /\ f.d <= 5
             /\ fs' = Append(fs, Make(t, f, a, b, c)) /\ cards' = Append(cards, <<t, a, b, c>>) /\ UNCHANGED pt
Place == /\ pt = <<>> /\ Len(fs) > 1 /\ \E p \in {<<1,0,0>>, <<2,90,1>>, <<1,270,-1>>} : pt' = p
         /\ UNCHANGED <<fs, cards>>
Next == Define \/ Place
Spec == Init /\ [][Next]_vars
Last == fs[Len(fs)]
Ref == fs[Len(fs) - 1]
C == cards[Len(cards)]
Rigid == \A i \in 1..Len(fs) : Orthonormal(fs[i])
(* the three points of the card lie where the definition says *)
OnAxes == Len(fs) > 1 =>
  LET at(p) == VMul(Last.d \div Gcd(Last.d, Ref.d), PosG(Ref, p))    \* both over a common denominator
      k == Ref.d \div Gcd(Last.d, Ref.d)
      o == VMul(k, Last.o) vb == VSub(at(C[3]), o) vc == VSub(at(C[4]), o) IN
  /\ at(C[2]) = o
  /\ Cross(vb, Last.z) = Zero3 /\ Dot(vb, Last.z) > 0
  /\ Dot(vc, Last.y) = 0 /\ Dot(vc, Last.x) > 0
(* distances from the origin do not depend on the frame *)
Distance == pt # <<>> => LET v == VSub(PointG(Last, pt), Last.o) r == Rect(Last.t, pt) IN Dot(v, v) = Dot(r, r) * Last.d * Last.d
=============================================================================
