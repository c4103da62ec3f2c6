(* machine words as integers, their bits, and the bitwise operators.  Module Bits is what the contracts
   use; its axioms are proved of the definitions in BitsImpl (the clone at the end turns each into a goal). *)
module Bits
  use cxxprelude.Prelude
  use int.EuclideanDivision as ED
  predicate bit (w i: int)
  function p2 (n: int) : int
  function band32 (a b: int) : int
  function bor32 (a b: int) : int
  function bnot32 (a: int) : int
  function shl32 (a n: int) : int
  axiom bit_zero: forall i. not bit 0 i
  axiom bit_low: forall w. bit w 0 <-> ED.mod w 2 = 1
  predicate word (a: int) = 0 <= a < 4294967296
  predicate same_bits (a b: int) = forall i. 0 <= i < 32 -> (bit a i <-> bit b i)
  axiom bits_ext32: forall a b [same_bits a b]. word a -> word b -> same_bits a b -> a = b
  axiom some_bit: forall a [word a]. word a -> a <> 0 -> exists i. 0 <= i < 32 /\ bit a i
  axiom lowest_bit: forall w [word w]. word w -> w <> 0 -> exists l. 0 <= l < 32 /\ bit w l /\ not bit (w - 1) l
    /\ (forall i. 0 <= i < l -> not bit w i) /\ (forall i. l < i -> (bit (w - 1) i <-> bit w i))
  axiom band32_def: forall a b. 0 <= band32 a b < 4294967296 /\ forall i. 0 <= i < 32 -> (bit (band32 a b) i <-> bit a i /\ bit b i)
  axiom bor32_def: forall a b. 0 <= bor32 a b < 4294967296 /\ forall i. 0 <= i < 32 -> (bit (bor32 a b) i <-> bit a i \/ bit b i)
  axiom bnot32_def: forall a. 0 <= bnot32 a < 4294967296 /\ forall i. 0 <= i < 32 -> (bit (bnot32 a) i <-> not bit a i)
  axiom shl32_def: forall a n. 0 <= n < 32 -> 0 <= a < 4294967296 -> 0 <= shl32 a n < 4294967296
    /\ (forall i. 0 <= i < 32 -> (bit (shl32 a n) i <-> i >= n /\ bit a (i - n))) /\ (a * p2 n < 4294967296 -> shl32 a n = a * p2 n)
  axiom p2_word: forall n. 0 <= n < 32 -> 1 <= p2 n <= 2147483648 /\ (n < 31 -> p2 n <= 1073741824)
  axiom p2_0: p2 0 = 1
  axiom p2_31: p2 31 = 2147483648
  axiom p2_5: p2 5 = 32
  axiom shl_p2: forall k. 0 <= k < 31 -> shl32 (p2 k) 1 = p2 (k + 1)
  axiom bit_p2: forall n i. 0 <= n -> 0 <= i -> (bit (p2 n) i <-> i = n)
  axiom shl_one: forall k. 0 <= k < 32 -> shl32 1 k = p2 k
  axiom bor_high_low: forall a b [bor32 a b]. 0 <= b < 32 -> 0 <= a < 4294967296 -> ED.mod a 32 = 0 -> bor32 a b = a + b
  axiom bor_disjoint: forall a b k. 0 <= k < 32 -> 0 <= b < p2 k -> 0 <= a -> a + b < 4294967296 -> ED.mod a (p2 k) = 0 -> bor32 a b = a + b /\ bor32 b a = a + b
  axiom band_one: forall w k. 0 <= k < 32 -> (band32 w (p2 k) = 0 <-> not bit w k)
  (* the C++ operators on 32 bit words *)
  val band_u32 (a b: int) : int
    ensures { result = band32 a b /\ word result }
  val bor_u32 (a b: int) : int
    ensures { result = bor32 a b /\ word result }
  val bnot_u32 (a: int) : int
    ensures { result = bnot32 a /\ word result }
  val bor_s32 (a b: int) : int
    requires { [@expl:bitwise or of non-negative values] 0 <= a <= 2147483647 /\ 0 <= b <= 2147483647 }
    ensures { result = bor32 a b /\ result <= 2147483647 }
  val shl_u32 (a n: int) : int
    requires { [@expl:shift distance] 0 <= n < 32 } requires { 0 <= a < 4294967296 }
    ensures { result = shl32 a n }
  val shl_s32 (a n: int) : int
    requires { [@expl:shift distance] 0 <= n < 32 } requires { [@expl:shift of a non-negative value] 0 <= a /\ a * p2 n < 4294967296 }
    ensures { - 2147483648 <= result <= 2147483647 }
    ensures { result = if a * p2 n <= 2147483647 then a * p2 n else a * p2 n - 4294967296 }
end
module BitsImpl
  use cxxprelude.Prelude
  (* machine words as integers, their bits, and the bitwise operators; everything here is defined and proved *)
  use int.EuclideanDivision as ED
  let rec ghost predicate bit (w i: int)
    variant { i }
  = if i <= 0 then ED.mod w 2 = 1 else bit (ED.div w 2) (i - 1)
  let rec ghost function p2 (n: int) : int
    ensures { result >= 1 }
    variant { n }
  = if n <= 0 then 1 else 2 * p2 (n - 1)
  lemma p2_32: p2 32 = 4294967296 by p2 4 = 16 so p2 8 = 256 so p2 12 = 4096 so p2 16 = 65536 so p2 20 = 1048576 so p2 24 = 16777216 so p2 28 = 268435456
  lemma p2_31: p2 31 = 2147483648
  lemma p2_5: p2 5 = 32
  let rec lemma p2_mono (a b: int)
    requires { 0 <= a <= b }
    ensures { p2 a <= p2 b }
    variant { b }
  = if a < b then p2_mono a (b - 1)
  let rec lemma bit_zero (i: int)
    ensures { not bit 0 i }
    variant { i }
  = if i > 0 then bit_zero (i - 1)
  let lemma bit_half (w i: int)
    requires { 0 < i }
    ensures { bit w i <-> bit (ED.div w 2) (i - 1) }
  = ()
  let lemma bit_succ (w i: int)
    requires { 0 <= i }
    ensures { bit w (i + 1) <-> bit (ED.div w 2) i }
  = bit_half w (i + 1)
  let rec lemma bits_ext (n a b: int)
    requires { 0 <= n /\ 0 <= a < p2 n /\ 0 <= b < p2 n }
    requires { forall i. 0 <= i < n -> (bit a i <-> bit b i) }
    ensures { a = b }
    variant { n }
  = if n > 0 then begin
      assert { bit a 0 <-> bit b 0 };
      assert { forall i. 0 <= i < n - 1 -> (bit (ED.div a 2) i <-> bit (ED.div b 2) i)
               by 0 <= i + 1 < n /\ (bit a (i + 1) <-> bit b (i + 1)) };
      bits_ext (n - 1) (ED.div a 2) (ED.div b 2)
    end
  let rec lemma bit_high (n a i: int)
    requires { 0 <= n <= i /\ 0 <= a < p2 n }
    ensures { not bit a i }
    variant { n }
  = if n > 0 then bit_high (n - 1) (ED.div a 2) (i - 1) else bit_zero i
  let rec lemma bit_p2 (n i: int)
    requires { 0 <= n /\ 0 <= i }
    ensures { bit (p2 n) i <-> i = n }
    variant { n }
  = if n > 0 then begin
      assert { ED.div (p2 n) 2 = p2 (n - 1) };
      assert { ED.mod (p2 n) 2 = 0 };
      if i > 0 then bit_p2 (n - 1) (i - 1)
    end else if i > 0 then bit_zero (i - 1)
  let rec lemma bit_minus_p2 (n a i: int)
    requires { 0 <= i < n /\ p2 n <= a }
    ensures { bit (a - p2 n) i <-> bit a i }
    variant { n }
  = assert { p2 n = 2 * p2 (n - 1) };
    assert { ED.div (a - p2 n) 2 = ED.div a 2 - p2 (n - 1) };
    if i > 0 then bit_minus_p2 (n - 1) (ED.div a 2) (i - 1)
  let rec lemma some_bit (n a: int) : int
    requires { 0 < a < p2 n /\ 0 <= n }
    ensures { 0 <= result < n /\ bit a result }
    variant { n }
  = if ED.mod a 2 = 1 then 0 else begin
      let r = some_bit (n - 1) (ED.div a 2) in
      r + 1
    end
  let lemma bits_zero (a: int)
    requires { 0 <= a < 4294967296 } requires { forall i. 0 <= i < 32 -> not bit a i }
    ensures { a = 0 }
  = if a > 0 then let _r = some_bit 32 a in ()
  lemma bit_div32: forall w i. 0 <= i -> (bit (ED.div w 32) i <-> bit w (i + 5))
    by ED.div (ED.div (ED.div (ED.div (ED.div w 2) 2) 2) 2) 2 = ED.div w 32

  let lemma bit_dbl (q l i: int)
    requires { (l = 0 \/ l = 1) /\ 0 <= i }
    ensures { bit (2 * q + l) i <-> if i = 0 then l = 1 else bit q (i - 1) }
  = assert { ED.div (2 * q + l) 2 = q /\ ED.mod (2 * q + l) 2 = l };
    if i > 0 then bit_half (2 * q + l) i
  let rec lemma bit_join (n q b i: int)
    requires { 0 <= n /\ 0 <= b < p2 n /\ 0 <= i }
    ensures { bit (p2 n * q + b) i <-> if i < n then bit b i else bit q (i - n) }
    variant { n }
  = if n > 0 then begin
      let b2 = ED.div b 2 in
      let l = ED.mod b 2 in
      assert { p2 n * q = 2 * (p2 (n - 1) * q) };
      bit_dbl (p2 (n - 1) * q + b2) l i;
      bit_dbl b2 l i;
      assert { p2 n * q + b = 2 * (p2 (n - 1) * q + b2) + l /\ b = 2 * b2 + l };
      if i > 0 then bit_join (n - 1) q b2 (i - 1)
    end
  let lemma bit_join32 (q b i: int)
    requires { 0 <= b < 32 /\ 0 <= i }
    ensures { bit (32 * q + b) i <-> if i < 5 then bit b i else bit q (i - 5) }
  = bit_join 5 q b i
  let rec ghost function band_ (n a b: int) : int
    requires { 0 <= n } variant { n }
    ensures { 0 <= result < p2 n }
    ensures { forall i. 0 <= i < n -> (bit result i <-> bit a i /\ bit b i) }
  = if n = 0 then 0 else begin
      let r = band_ (n - 1) (ED.div a 2) (ED.div b 2) in
      let l = if ED.mod a 2 = 1 && ED.mod b 2 = 1 then 1 else 0 in
      assert { ED.div (2 * r + l) 2 = r /\ ED.mod (2 * r + l) 2 = l };
      2 * r + l
    end
  let rec ghost function bor_ (n a b: int) : int
    requires { 0 <= n } variant { n }
    ensures { 0 <= result < p2 n }
    ensures { forall i. 0 <= i < n -> (bit result i <-> bit a i \/ bit b i) }
  = if n = 0 then 0 else begin
      let r = bor_ (n - 1) (ED.div a 2) (ED.div b 2) in
      let l = if ED.mod a 2 = 1 || ED.mod b 2 = 1 then 1 else 0 in
      assert { ED.div (2 * r + l) 2 = r /\ ED.mod (2 * r + l) 2 = l };
      2 * r + l
    end
  let rec ghost function bnot_ (n a: int) : int
    requires { 0 <= n } variant { n }
    ensures { 0 <= result < p2 n }
    ensures { forall i. 0 <= i < n -> (bit result i <-> not bit a i) }
  = if n = 0 then 0 else begin
      let r = bnot_ (n - 1) (ED.div a 2) in
      let l = if ED.mod a 2 = 1 then 0 else 1 in
      assert { ED.div (2 * r + l) 2 = r /\ ED.mod (2 * r + l) 2 = l };
      2 * r + l
    end
  lemma p2_30: p2 30 = 1073741824
  let lemma p2_word (n: int)
    requires { 0 <= n < 32 }
    ensures { 1 <= p2 n <= 2147483648 /\ (n < 31 -> p2 n <= 1073741824) }
  = p2_mono n 31; if n < 31 then p2_mono n 30
  (* testing one bit *)
  let lemma band_one (w k: int)
    requires { 0 <= k < 32 }
    ensures { band_ 32 w (p2 k) = 0 <-> not bit w k }
  = let r = band_ 32 w (p2 k) in
    assert { forall i. 0 <= i < 32 -> (bit r i <-> i = k /\ bit w k) };
    if pure { bit w k } then assert { bit r k /\ not bit 0 k } else begin assert { forall i. 0 <= i < 32 -> not bit r i }; bits_zero r end
  let rec ghost function shl_ (a n: int) : int
    requires { 0 <= n < 32 /\ 0 <= a < 4294967296 } variant { n }
    ensures { 0 <= result < 4294967296 }
    ensures { forall i. 0 <= i < 32 -> (bit result i <-> i >= n /\ bit a (i - n)) }
    ensures { a * p2 n < 4294967296 -> result = a * p2 n }
  = if n = 0 then a else begin
      let b = shl_ a (n - 1) in
      let t = a * p2 (n - 1) in
      assert { a * p2 n = 2 * t };
      assert { t >= 0 };
      assert { t < 4294967296 -> b = t };
      let c = if b < 2147483648 then b else b - 2147483648 in
      let r = 2 * c in
      assert { forall i. 0 <= i < 31 -> (bit c i <-> bit b i) };
      assert { forall i. 0 < i < 32 -> (bit r i <-> i - 1 >= n - 1 /\ bit a ((i - 1) - (n - 1)))
         by r = 2 * c + 0 so (bit r i <-> bit c (i - 1)) /\ (bit b (i - 1) <-> i - 1 >= n - 1 /\ bit a ((i - 1) - (n - 1))) };
      assert { forall i. 0 < i < 32 -> (bit r i <-> i >= n /\ bit a (i - n))
         by (i - 1) - (n - 1) = i - n };
      assert { not bit r 0 by r = 2 * c + 0 };
      assert { 2 * t < 4294967296 -> r = 2 * t };
      r
    end
  let lemma shl_one (k: int)
    requires { 0 <= k < 32 }
    ensures { shl_ 1 k = p2 k }
  = p2_word k
  (* low part and high part do not overlap *)
  let lemma bor_high_low (q b: int)
    requires { 0 <= b < 32 /\ 0 <= q < 134217728 }
    ensures { bor_ 32 (32 * q) b = 32 * q + b }
  = let r = bor_ 32 (32 * q) b in
    let v = 32 * q + b in
    assert { forall i. 5 <= i -> not bit b i by b < p2 5 };
    assert { forall i. 0 <= i -> (bit (32 * q + 0) i <-> if i < 5 then bit 0 i else bit q (i - 5)) };
    assert { forall i. 0 <= i < 5 -> not bit (32 * q) i };
    assert { forall i. 5 <= i -> (bit (32 * q) i <-> bit q (i - 5)) };
    let rec vbits (k: int) : unit
      requires { 0 <= k } ensures { forall i. 0 <= i < k -> (bit v i <-> if i < 5 then bit b i else bit q (i - 5)) } variant { k }
    = if k > 0 then begin vbits (k - 1); bit_join32 q b (k - 1) end in
    vbits 32;
    assert { forall i. 0 <= i < 32 -> (bit r i <-> bit (32 * q) i \/ bit b i) };
    assert { forall i. 0 <= i < 32 -> (bit r i <-> bit v i) };
    assert { v < p2 32 };
    bits_ext 32 r v
  let rec lemma lowest_bit (n w: int) : int
    requires { 0 <= n /\ 0 < w < p2 n }
    ensures { 0 <= result < n /\ bit w result /\ not bit (w - 1) result }
    ensures { forall i. 0 <= i < result -> not bit w i }
    ensures { forall i. result < i -> (bit (w - 1) i <-> bit w i) }
    variant { n }
  = let h = ED.div w 2 in
    if ED.mod w 2 = 1 then begin
      assert { forall i. 0 < i -> (bit (w - 1) i <-> bit w i) by w - 1 = 2 * h + 0 /\ w = 2 * h + 1 };
      0
    end else begin
      let r = lowest_bit (n - 1) h in
      assert { w = 2 * h + 0 /\ w - 1 = 2 * (h - 1) + 1 };
      assert { forall i. 0 <= i <= r -> not (0 < i /\ i <= r /\ bit w i) by i = 0 \/ (bit w i <-> bit h (i - 1)) };
      assert { forall i. r + 1 <= i -> (bit w i <-> bit h (i - 1)) /\ (bit (w - 1) i <-> bit (h - 1) (i - 1)) };
      r + 1
    end
  let lemma bit_shifted (n q i: int)
    requires { 0 <= n /\ 0 <= i }
    ensures { bit (p2 n * q) i <-> i >= n /\ bit q (i - n) }
  = bit_join n q 0 i; bit_zero i
  let lemma bor_disjoint_ (a b k: int)
    requires { 0 <= k < 32 /\ 0 <= b < p2 k /\ 0 <= a /\ a + b < 4294967296 /\ ED.mod a (p2 k) = 0 }
    ensures { bor_ 32 a b = a + b /\ bor_ 32 b a = a + b }
  = let q = ED.div a (p2 k) in
    assert { a = p2 k * q };
    let v = a + b in
    let r = bor_ 32 a b in
    let t = bor_ 32 b a in
    let rec f (n: int) : unit
      requires { 0 <= n <= 32 }
      ensures { forall i. 0 <= i < n -> (bit v i <-> bit a i \/ bit b i) } variant { n }
    = if n > 0 then begin
        f (n - 1); bit_join k q b (n - 1); bit_shifted k q (n - 1);
        if n - 1 >= k then bit_high k b (n - 1)
      end in
    f 32;
    assert { p2 32 = 4294967296 };
    bits_ext 32 r v; bits_ext 32 t v
  predicate word (a: int) = 0 <= a < 4294967296
  predicate same_bits (a b: int) = forall i. 0 <= i < 32 -> (bit a i <-> bit b i)
  predicate some_ (a: int) = exists i. 0 <= i < 32 /\ bit a i
  predicate lowest_ (w: int) = exists l. 0 <= l < 32 /\ bit w l /\ not bit (w - 1) l
    /\ (forall i. 0 <= i < l -> not bit w i) /\ (forall i. l < i -> (bit (w - 1) i <-> bit w i))
  let lemma ext32 (a b: int)
    requires { word a /\ word b /\ same_bits a b } ensures { a = b }
  = bits_ext 32 a b
  let lemma some32 (a: int)
    requires { word a /\ a <> 0 } ensures { some_ a }
  = let _r = some_bit 32 a in ()
  let lemma lowest32 (w: int)
    requires { word w /\ w <> 0 } ensures { lowest_ w }
  = let _r = lowest_bit 32 w in ()
  let lemma shl_p2_ (k: int)
    requires { 0 <= k < 31 }
    ensures { shl_ (p2 k) 1 = p2 (k + 1) }
  = p2_word k; assert { p2 1 = 2 }; p2_word (k + 1); assert { p2 k * p2 1 = p2 (k + 1) }
  let lemma bor_high_low_ (a b: int)
    requires { 0 <= b < 32 /\ 0 <= a < 4294967296 /\ ED.mod a 32 = 0 }
    ensures { bor_ 32 a b = a + b }
  = let q = ED.div a 32 in bor_high_low q b; assert { a = 32 * q }
  function band32 (a b: int) : int = band_ 32 a b
  function bor32 (a b: int) : int = bor_ 32 a b
  function bnot32 (a: int) : int = bnot_ 32 a
  function shl32 (a n: int) : int = shl_ a n
  clone Bits with predicate word = word, predicate same_bits = same_bits, predicate bit = bit, function p2 = p2, function band32 = band32, function bor32 = bor32, function bnot32 = bnot32, function shl32 = shl32
end
