tu
#include "/repo/TameParse/Util/utf8reader.cpp"
endtu
mlw
  use int.EuclideanDivision as ED
  (* the bytes still to come from a std::istream, and whether it is good; get() takes a byte or fails at the end *)
  type istream = { sb: seq int; sgood: bool }
  predicate byte (b: int) = 0 <= b <= 255
  predicate bytes (s: seq int) = forall i. 0 <= i < length s -> byte s[i]
  let in_get (s: istream) : (r: int, n: istream)
    ensures { r = if s.sgood && length s.sb > 0 then s.sb[0] else -1 }
    ensures { if s.sgood && length s.sb > 0 then n.sb = s.sb[1 ..] /\ n.sgood else n.sb = s.sb /\ not n.sgood }
  = if s.sgood && length s.sb > 0 then (s.sb[0], { sb = s.sb[1 ..]; sgood = true }) else (-1, { sb = s.sb; sgood = false })
  val in_good (s: istream) : bool ensures { result = s.sgood }
endmlw
abstract istream "std::basic_istream<char>"
abstract istream "std::istream"
ptr istream "std::basic_istream<char>" own=ref
ptr istream "std::istream" own=ref
xfn in_get "std::istream::get" upd=this ret=yes ty=int
xfn in_good "std::istream::good" ty=bool
record u "util::utf8reader"
mlw
  (* UTF-8 as the Unicode standard defines it: the bytes of a character *)
  predicate scalar (c: int) = 0 <= c <= 0xd7ff \/ 0xe000 <= c <= 0x10ffff
  function s1 (a: int) : seq int = cons a empty
  function s2 (a b: int) : seq int = cons a (s1 b)
  function s3 (a b c: int) : seq int = cons a (s2 b c)
  function s4 (a b c d: int) : seq int = cons a (s3 b c d)
  lemma s1_is: forall a [s1 a]. length (s1 a) = 1 /\ (s1 a)[0] = a
  lemma s2_is: forall a b [s2 a b]. length (s2 a b) = 2 /\ (s2 a b)[0] = a /\ (s2 a b)[1] = b by let t = cons a (s1 b) in t[0] = a /\ t[1] = (s1 b)[0]
  lemma s3_is: forall a b c [s3 a b c]. length (s3 a b c) = 3 /\ (s3 a b c)[0] = a /\ (s3 a b c)[1] = b /\ (s3 a b c)[2] = c
  lemma s4_is: forall a b c d [s4 a b c d]. length (s4 a b c d) = 4 /\ (s4 a b c d)[0] = a /\ (s4 a b c d)[1] = b /\ (s4 a b c d)[2] = c /\ (s4 a b c d)[3] = d
  function e0 (c: int) : int = 0x80 + ED.mod c 64
  function encode (c: int) : seq int =
    if c < 0x80 then s1 c
    else if c < 0x800 then s2 (0xc0 + ED.div c 64) (e0 c)
    else if c < 0x10000 then s3 (0xe0 + ED.div c 4096) (e0 (ED.div c 64)) (e0 c)
    else s4 (0xf0 + ED.div c 262144) (e0 (ED.div c 4096)) (e0 (ED.div c 64)) (e0 c)
  (* and as UTF-16 *)
  function high (c: int) : int = 0xd800 + ED.div (c - 0x10000) 1024
  function low (c: int) : int = 0xdc00 + ED.mod (c - 0x10000) 1024
  function utf16 (c: int) : seq int = if c < 0x10000 then s1 c else s2 (high c) (low c)
  (* the first character of a sequence of bytes *)
  type first = End | Bad | Char int int
  predicate cont (b: int) = 0x80 <= b < 0xc0
  function v2 (b: seq int) : int = (b[0] - 0xc0) * 64 + (b[1] - 0x80)
  function v3 (b: seq int) : int = (b[0] - 0xe0) * 4096 + (b[1] - 0x80) * 64 + (b[2] - 0x80)
  function v4 (b: seq int) : int = (b[0] - 0xf0) * 262144 + (b[1] - 0x80) * 4096 + (b[2] - 0x80) * 64 + (b[3] - 0x80)
  function first_of (b: seq int) : first =
    if length b = 0 then End
    else if b[0] < 0x80 then Char b[0] 1
    else if 0xc0 <= b[0] < 0xe0 then (if length b >= 2 /\ cont b[1] /\ v2 b >= 0x80 then Char (v2 b) 2 else Bad)
    else if 0xe0 <= b[0] < 0xf0 then (if length b >= 3 /\ cont b[1] /\ cont b[2] /\ v3 b >= 0x800 then Char (v3 b) 3 else Bad)
    else if 0xf0 <= b[0] < 0xf8 then (if length b >= 4 /\ cont b[1] /\ cont b[2] /\ cont b[3] /\ 0x10000 <= v4 b <= 0x10ffff then Char (v4 b) 4 else Bad)
    else Bad
  lemma rest_of_rest: forall s: seq int, a b [s[a ..][b ..]]. 0 <= a -> 0 <= b -> a + b <= length s -> s[a ..][b ..] = s[a + b ..] by s[a ..][b ..] == s[a + b ..]
  let lemma encode_first (c: int) (r: seq int)
    requires { 0 <= c <= 0x10ffff }
    ensures { [@expl:the encoding of a character decodes to it] first_of (encode c ++ r) = Char c (length (encode c)) }
    ensures { [@expl:what follows the encoding is left] (encode c ++ r)[length (encode c) ..] = r }
  = assert { length (encode c) = if c < 0x80 then 1 else if c < 0x800 then 2 else if c < 0x10000 then 3 else 4 };
    assert { 0 <= ED.mod c 64 < 64 /\ 0 <= ED.mod (ED.div c 64) 64 < 64 /\ 0 <= ED.mod (ED.div c 4096) 64 < 64 };
    assert { (c >= 0x10000 -> 0 <= ED.div c 262144 <= 4) /\ (c < 0x10000 -> 0 <= ED.div c 4096 < 16) /\ (c < 0x800 -> 0 <= ED.div c 64 < 32) };
    assert { ED.div c 4096 = ED.div (ED.div c 64) 64 by 4096 = 64 * 64 };
    assert { ED.div c 262144 = ED.div (ED.div c 4096) 64 by 262144 = 4096 * 64 };
    assert { c = ED.div c 64 * 64 + ED.mod c 64 /\ ED.div c 64 = ED.div c 4096 * 64 + ED.mod (ED.div c 64) 64 /\ ED.div c 4096 = ED.div c 262144 * 64 + ED.mod (ED.div c 4096) 64 };
    assert { (encode c ++ r)[length (encode c) ..] == r };
    assert { length (encode c) >= 1 /\ (encode c ++ r)[0] = (encode c)[0] };
    assert { c >= 0x80 -> (encode c ++ r)[1] = (encode c)[1] };
    assert { c >= 0x800 -> (encode c ++ r)[2] = (encode c)[2] };
    assert { c >= 0x10000 -> (encode c ++ r)[3] = (encode c)[3] };
    let s = encode c ++ r in
    assert { [@expl:one byte] c < 0x80 -> s[0] = c };
    assert { [@expl:two bytes] 0x80 <= c < 0x800 -> length s >= 2 /\ 0xc0 <= s[0] < 0xe0 /\ cont s[1] /\ v2 s = c };
    assert { [@expl:three bytes] 0x800 <= c < 0x10000 -> length s >= 3 /\ 0xe0 <= s[0] < 0xf0 /\ cont s[1] /\ cont s[2] /\ v3 s = c };
    assert { [@expl:four bytes] 0x10000 <= c -> length s >= 4 /\ 0xf0 <= s[0] < 0xf8 /\ cont s[1] /\ cont s[2] /\ cont s[3] /\ v4 s = c }
  function src (r: u) : istream = match r.u_InputStream with Ptr s -> s | Null -> { sb = empty; sgood = false } end
  predicate active (r: u) = r.u_PairChar = 0 /\ not r.u_BadUTF8 /\ (src r).sgood
endmlw
fn u_new
  cxx util::utf8reader::utf8reader(std::istream *, bool)
  ensures nothing read and nothing bad yet:: result.u_InputStream = inputStream /\ not result.u_BadUTF8 /\ result.u_PairChar = 0
end
fn u_good
  cxx util::utf8reader::good
  requires this.u_InputStream <> Null
  ensures good:: result <-> not this.u_BadUTF8 /\ (src this).sgood
end
fn u_get
  cxx util::utf8reader::get
  opt wrapcast
  requires bytes (src this).sb
  ensures same stream:: this.u_InputStream = Null <-> (old this).u_InputStream = Null
  ensures second half of a pair:: (old this).u_PairChar <> 0 -> target = (old this).u_PairChar /\ this = { (old this) with u_PairChar = 0 }
  ensures nothing after a malformed sequence or the end:: (old this).u_PairChar = 0 -> ((old this).u_BadUTF8 \/ not (src (old this)).sgood) -> target = 0 /\ this = old this
  ensures complete character:: forall c n. active (old this) -> first_of (src (old this)).sb = Char c n -> not this.u_BadUTF8 /\ (src this).sgood /\ (src this).sb = (src (old this)).sb[n ..]
  ensures character of the BMP:: forall c n. active (old this) -> first_of (src (old this)).sb = Char c n -> c < 0x10000 -> target = c /\ this.u_PairChar = 0
  ensures surrogate pair:: forall c n. active (old this) -> first_of (src (old this)).sb = Char c n -> c >= 0x10000 -> target = high c /\ this.u_PairChar = low c
  ensures malformed sequence or end of the input:: active (old this) -> (first_of (src (old this)).sb = Bad \/ first_of (src (old this)).sb = End) -> target = 0 /\ this.u_BadUTF8 /\ this.u_PairChar = 0
end
mlw client
  (* the bytes of the characters c[n], c[n+1], ... followed by some more; their UTF-16 form *)
  let rec ghost function encodes (c: seq int) (n: int) (rest: seq int) : seq int
    variant { length c - n }
  = if n < 0 || n >= length c then rest else encode c[n] ++ encodes c (n + 1) rest
  let rec ghost function utf16s (c: seq int) (n: int) : seq int
    variant { length c - n }
  = if n < 0 || n >= length c then empty else utf16 c[n] ++ utf16s c (n + 1)
  lemma move_one: forall a: seq int, x: int, s: seq int. snoc a x ++ s = a ++ cons x s by snoc a x ++ s == a ++ cons x s
  lemma s1_app: forall x: int, s: seq int. s1 x ++ s = cons x s by s1 x ++ s == cons x s
  lemma s2_app: forall x y: int, s: seq int. s2 x y ++ s = cons x (cons y s) by s2 x y ++ s == cons x (cons y s)
  (* a reader used until it is no longer good: the theorem over whole streams *)
  let read_all (s: istream) (ghost c: seq int) (ghost rest: seq int) : (out: seq int)
    requires { s.sgood /\ bytes s.sb /\ s.sb = encodes c 0 rest }
    requires { forall i. 0 <= i < length c -> scalar c[i] }
    requires { first_of rest = End \/ first_of rest = Bad }
    ensures { [@expl:exactly the characters before the end or the malformed sequence] out = utf16s c 0 }
  = let ref r = u_new (Ptr s) false in
    let ref out = empty in
    let ghost ref k = 0 in
    assert { empty ++ utf16s c 0 == utf16s c 0 };
    while true do
      invariant { 0 <= k <= length c /\ not r.u_BadUTF8 /\ (src r).sgood /\ bytes (src r).sb /\ (src r).sb = encodes c k rest }
      invariant { r.u_PairChar = 0 -> out ++ utf16s c k = utf16s c 0 }
      invariant { r.u_PairChar <> 0 -> out ++ cons r.u_PairChar (utf16s c k) = utf16s c 0 }
      variant { length c - k, if r.u_PairChar = 0 then 0 else 1 }
      let ghost r0 = r in let ghost out0 = out in
      let ref t = 0 in
      assert { [@expl:next character] r.u_PairChar = 0 -> k < length c -> (src r).sb = encode c[k] ++ encodes c (k + 1) rest /\ first_of (src r).sb = Char c[k] (length (encode c[k])) };
      u_get r t;
      assert { [@expl:last character] r0.u_PairChar = 0 -> k < length c -> (src r).sb = encodes c (k + 1) rest };
      if not (u_good r) then begin assert { [@expl:no character left] k = length c }; assert { [@expl:all delivered] out == out ++ utf16s c k }; return out end;
      out <- snoc out t;
      ghost (if r0.u_PairChar = 0 then begin
        assert { [@expl:a character is left] k < length c };
        assert { [@expl:what is left] (src r0).sb = encode c[k] ++ encodes c (k + 1) rest };
        assert { [@expl:next character] first_of (src r0).sb = Char c[k] (length (encode c[k])) /\ (src r).sb = encodes c (k + 1) rest };
        assert { [@expl:its form] utf16s c k = utf16 c[k] ++ utf16s c (k + 1) };
        assert { [@expl:first half] r.u_PairChar <> 0 -> out ++ cons r.u_PairChar (utf16s c (k + 1)) = out0 ++ utf16s c k by utf16s c k = cons t (cons r.u_PairChar (utf16s c (k + 1))) };
        assert { [@expl:whole] r.u_PairChar = 0 -> out ++ utf16s c (k + 1) = out0 ++ utf16s c k by utf16s c k = cons t (utf16s c (k + 1)) };
        k <- k + 1 end
      else assert { [@expl:second half] out ++ utf16s c k = out0 ++ cons r0.u_PairChar (utf16s c k) })
    done;
    absurd
endmlw
