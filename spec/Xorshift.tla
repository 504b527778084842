------------------------------ MODULE Xorshift ------------------------------
(* Marsaglia's generators on words of 16 bit limbs (least significant first).*)
EXTENDS Limbs
Shl(b, n) == TLCEval(LXor(b, LShl(b, n)))        \* b ^ (b << n)
Shr(b, n) == TLCEval(LXor(b, LShr(b, n)))
(* state: sequence of limb words; result: <<new state, output>> *)
Next32(s) == LET y == Shl(Shr(Shl(s[1], 13), 17), 5) IN <<<<y>>, y>>
Next64(s) == LET x == Shl(Shr(Shl(s[1], 13), 7), 17) IN <<<<x>>, x>>
NextWow(s) ==
  LET t == Shr(s[1], 2)
      v == TLCEval(LXor(Shl(s[5], 4), Shl(t, 1)))
      d == TLCEval(LAdd(s[6], <<34757, 5>>)) IN      \* 362437
  <<<<s[2], s[3], s[4], s[5], v, d>>, TLCEval(LAdd(d, v))>>
Next128(s) ==
  LET t == Shl(s[1], 11)
      w == TLCEval(LXor(Shr(s[4], 19), Shr(t, 8))) IN
  <<<<s[2], s[3], s[4], w>>, w>>
(* documented default seeds *)
Y == <<36002, 37590>>        \* 2463534242
X123 == <<52501, 1883>>      \* 123456789
Seed32 == <<Y>>
Seed64 == <<<<31300, 52159, 16525, 313>>>>    \* 88172645463325252
SeedWow == <<X123, <<21989, 5530>>, <<15285, 7954>>, <<4915, 1353>>, <<16153, 88>>, <<61641, 100>>>>
Seed128 == <<X123, <<21989, 5530>>, <<15285, 7954>>, <<4915, 1353>>>>
NextOf(kind, s) == CASE kind = "x32" -> Next32(s) [] kind = "x64" -> Next64(s)
                     [] kind = "wow" -> NextWow(s) [] kind = "x128" -> Next128(s)
SeedOf(kind) == CASE kind = "x32" -> Seed32 [] kind = "x64" -> Seed64
                  [] kind = "wow" -> SeedWow [] kind = "x128" -> Seed128
=============================================================================
