(* helpers used by the extracted code; every 'let' here is itself proved *)
module Prelude
  use export int.Int
  use export int.MinMax
  use int.ComputerDivision as CD
  use int.EuclideanDivision as ED
  use export seq.Seq
  use export ref.Ref

  (* ---- scalar helpers: all defined, nothing assumed ---- *)
  let function beq (a b: bool) : bool
    ensures { result <-> a = b }
  = if a then b else not b

  let to_unsigned (x: int) : int
    requires { [@expl:signed value converted to unsigned is non-negative] x >= 0 }
    ensures { result = x } = x

  let usub (a b: int) : int
    requires { [@expl:unsigned subtraction does not wrap] a >= b }
    ensures { result = a - b } = a - b

  let narrow_s32 (x: int) : int
    requires { [@expl:value fits in int] -2147483648 <= x <= 2147483647 }
    ensures { result = x } = x
  let narrow_s64 (x: int) : int
    requires { [@expl:value fits in long] -9223372036854775808 <= x <= 9223372036854775807 }
    ensures { result = x } = x
  let narrow_s16 (x: int) : int
    requires { [@expl:value fits in short] -32768 <= x <= 32767 }
    ensures { result = x } = x
  let narrow_s8 (x: int) : int
    requires { [@expl:value fits in char] -128 <= x <= 127 }
    ensures { result = x } = x
  let trunc_u32 (x: int) : int
    requires { [@expl:value fits in unsigned int] 0 <= x <= 4294967295 }
    ensures { result = x } = x
  let trunc_u16 (x: int) : int
    requires { [@expl:value fits in unsigned short] 0 <= x <= 65535 }
    ensures { result = x } = x
  let trunc_u8 (x: int) : int
    requires { [@expl:value fits in unsigned char] 0 <= x <= 255 }
    ensures { result = x } = x

  let add_s32 (a b: int) : int
    requires { [@expl:no signed overflow] -2147483648 <= a + b <= 2147483647 }
    ensures { result = a + b } = a + b
  let sub_s32 (a b: int) : int
    requires { [@expl:no signed overflow] -2147483648 <= a - b <= 2147483647 }
    ensures { result = a - b } = a - b
  let mul_s32 (a b: int) : int
    requires { [@expl:no signed overflow] -2147483648 <= a * b <= 2147483647 }
    ensures { result = a * b } = a * b
  let add_u32 (a b: int) : int
    requires { [@expl:no unsigned wrap-around] 0 <= a + b <= 4294967295 }
    ensures { result = a + b } = a + b
  let mul_u32 (a b: int) : int
    requires { [@expl:no unsigned wrap-around] 0 <= a * b <= 4294967295 }
    ensures { result = a * b } = a * b
  let add_s64 (a b: int) : int
    requires { [@expl:no signed overflow] -9223372036854775808 <= a + b <= 9223372036854775807 }
    ensures { result = a + b } = a + b
  let sub_s64 (a b: int) : int
    requires { [@expl:no signed overflow] -9223372036854775808 <= a - b <= 9223372036854775807 }
    ensures { result = a - b } = a - b
  let add_u64 (a b: int) : int
    requires { [@expl:no unsigned wrap-around] 0 <= a + b <= 18446744073709551615 }
    ensures { result = a + b } = a + b
  let mul_u64 (a b: int) : int
    requires { [@expl:no unsigned wrap-around] 0 <= a * b <= 18446744073709551615 }
    ensures { result = a * b } = a * b

  (* modular conversions (implementation defined in C++17 for signed targets; gcc and clang reduce modulo 2^n) *)
  let wrap_u8 (x: int) : int
    ensures { 0 <= result < 256 /\ (0 <= x < 256 -> result = x) /\ (- 256 <= x < 0 -> result = x + 256) /\ result = ED.mod x 256 }
  = if 0 <= x < 256 then x else if - 256 <= x < 0 then x + 256 else ED.mod x 256
  let wrap_s8 (x: int) : int
    ensures { - 128 <= result < 128 /\ (- 128 <= x < 128 -> result = x) /\ (128 <= x < 256 -> result = x - 256) }
  = let r = wrap_u8 x in if r < 128 then r else r - 256
  let wrap_u16 (x: int) : int
    ensures { 0 <= result < 65536 /\ (0 <= x < 65536 -> result = x) /\ (- 65536 <= x < 0 -> result = x + 65536) /\ result = ED.mod x 65536 }
  = if 0 <= x < 65536 then x else if - 65536 <= x < 0 then x + 65536 else ED.mod x 65536
  let wrap_s16 (x: int) : int
    ensures { - 32768 <= result < 32768 /\ (- 32768 <= x < 32768 -> result = x) /\ (32768 <= x < 65536 -> result = x - 65536) }
  = let r = wrap_u16 x in if r < 32768 then r else r - 65536
  let wrap_u32 (x: int) : int
    ensures { 0 <= result < 4294967296 /\ (0 <= x < 4294967296 -> result = x) /\ (- 4294967296 <= x < 0 -> result = x + 4294967296) /\ result = ED.mod x 4294967296 }
  = if 0 <= x < 4294967296 then x else if - 4294967296 <= x < 0 then x + 4294967296 else ED.mod x 4294967296
  let wrap_s32 (x: int) : int
    ensures { - 2147483648 <= result < 2147483648 /\ (- 2147483648 <= x < 2147483648 -> result = x) /\ (2147483648 <= x < 4294967296 -> result = x - 4294967296) }
  = let r = wrap_u32 x in if r < 2147483648 then r else r - 4294967296
  let wrap_u64 (x: int) : int
    ensures { 0 <= result < 18446744073709551616 /\ (0 <= x < 18446744073709551616 -> result = x) /\ (- 18446744073709551616 <= x < 0 -> result = x + 18446744073709551616) /\ result = ED.mod x 18446744073709551616 }
  = if 0 <= x < 18446744073709551616 then x else if - 18446744073709551616 <= x < 0 then x + 18446744073709551616 else ED.mod x 18446744073709551616
  let wrap_s64 (x: int) : int
    ensures { - 9223372036854775808 <= result < 9223372036854775808 /\ (- 9223372036854775808 <= x < 9223372036854775808 -> result = x) /\ (9223372036854775808 <= x < 18446744073709551616 -> result = x - 18446744073709551616) }
  = let r = wrap_u64 x in if r < 9223372036854775808 then r else r - 18446744073709551616

  (* x >> k, p = 2^k (arithmetic shift: rounds down, defined so in C++20 and by every compiler in use); x & (p-1) in two's complement; (x & ((p-1) << k)) *)
  let shr_c (x p: int) : int
    requires { p > 0 }
    ensures { result = ED.div x p }
    ensures { p * result <= x < p * result + p }
  = ED.div x p
  let mask_low (x p: int) : int
    requires { p > 0 }
    ensures { result = ED.mod x p }
    ensures { 0 <= result < p /\ x = p * ED.div x p + result }
  = ED.mod x p
  let mask_mid (x lo w: int) : int
    requires { [@expl:mask of a non-negative value] x >= 0 } requires { lo > 0 /\ w > 0 }
    ensures { result = lo * ED.mod (ED.div x lo) w }
  = lo * ED.mod (ED.div x lo) w
  let cdiv (a b: int) : int
    requires { [@expl:division by zero] b <> 0 }
    ensures { result = CD.div a b }
  = CD.div a b
  let cmod (a b: int) : int
    requires { [@expl:division by zero] b <> 0 }
    ensures { result = CD.mod a b }
  = CD.mod a b

  let min_int (a b: int) : int ensures { result = min a b } = if a <= b then a else b
  let max_int (a b: int) : int ensures { result = max a b } = if a <= b then b else a

  (* &a == &b: may only be true of equal values *)
  val same_object (a b: 'a) : bool
    ensures { result -> a = b }

  (* ---- pointers to objects that are not modified through them: null, or the object's value ---- *)
  type ptr 'a = Null | Ptr 'a
  let function is_null (p: ptr 'a) : bool
    ensures { result <-> p = Null }
  = match p with Null -> true | Ptr _ -> false end
  let pderef (p: ptr 'a) : 'a
    requires { [@expl:dereference of a non-null pointer] p <> Null }
    ensures { p = Ptr result }
  = match p with Ptr x -> x | Null -> absurd end
  (* address comparison: equal addresses hold equal values, null equals null only *)
  val ptr_eq (a b: ptr 'a) : bool
    ensures { result -> a = b }
    ensures { a = Null -> b = Null -> result }

  (* ---- sequences (std::vector, strings, arrays) ---- *)
  let vget (s: seq 'a) (i: int) : 'a
    requires { [@expl:index in bounds] 0 <= i < length s }
    ensures { result = s[i] }
  = s[i]
  let vset (s: seq 'a) (i: int) (v: 'a) : seq 'a
    requires { [@expl:index in bounds] 0 <= i < length s }
    ensures { result = set s i v }
  = set s i v
  let vpop (s: seq 'a) : seq 'a
    requires { [@expl:pop_back on a non-empty vector] length s > 0 }
    ensures { result = s[0 .. length s - 1] }
  = s[0 .. length s - 1]
  let verase (s: seq 'a) (i j: int) : seq 'a
    requires { [@expl:erase range in bounds] 0 <= i <= j <= length s }
    ensures { result = s[0 .. i] ++ s[j .. length s] }
  = s[0 .. i] ++ s[j .. length s]
  val vmake (n: int) (v: 'a) : seq 'a
    requires { n >= 0 }
    ensures { length result = n /\ forall i. 0 <= i < n -> result[i] = v }
  val vresize (s: seq 'a) (n: int) (v: 'a) : seq 'a
    requires { n >= 0 }
    ensures { length result = n /\ forall i. 0 <= i < n -> result[i] = (if i < length s then s[i] else v) }

  (* malloc/realloc of an array: the kept prefix, then arbitrary content; allocation assumed to succeed *)
  val amalloc (n: int) : seq 'a
    requires { [@expl:allocation size] n >= 0 }
    ensures { length result = n }
  val arealloc (s: seq 'a) (n: int) : seq 'a
    requires { [@expl:allocation size] n >= 0 }
    ensures { length result = n /\ forall i. 0 <= i < n -> i < length s -> result[i] = s[i] }
  (* p != NULL for an owning array pointer: only an empty array may be null *)
  val own_not_null (s: seq 'a) : bool
    ensures { not result -> length s = 0 }

  (* x | y where y lies below the lowest bit of x; p is the power of two in between.  Justified by bor_disjoint in bits.mlw *)
  val bor_disjoint (a b p: int) : int
    requires { [@expl:operands of | do not overlap] 0 <= b < p /\ 0 <= a /\ a + b < 4294967296 /\ ED.mod a p = 0 }
    ensures { result = a + b }

  (* std::sort and std::lower_bound with a comparison; sorting keeps the elements (as a set) and their number *)
  predicate weak_order (lt: 'a -> 'a -> bool) =
    (forall a. not lt a a) /\ (forall a b c. lt a b -> lt b c -> lt a c) /\ (forall a b c. lt a b -> lt a c \/ lt c b)
  predicate sorted_by (lt: 'a -> 'a -> bool) (s: seq 'a) (i j: int) = forall p q. i <= p < q < j -> not lt s[q] s[p]
  predicate among (s: seq 'a) (i j: int) (v: 'a) = exists p. i <= p < j /\ s[p] = v
  val v_sort (lt: 'a -> 'a -> bool) (s: seq 'a) (i j: int) : seq 'a
    requires { [@expl:range to sort] 0 <= i <= j <= length s } requires { [@expl:comparison is a strict weak order] weak_order lt }
    ensures { length result = length s /\ sorted_by lt result i j }
    ensures { forall v. among result i j v <-> among s i j v }
    ensures { forall p. 0 <= p < length s -> not i <= p < j -> result[p] = s[p] }
  val v_lower_bound (lt: 'a -> 'a -> bool) (s: seq 'a) (i j: int) (v: 'a) : int
    requires { [@expl:range to search] 0 <= i <= j <= length s }
    requires { [@expl:range is ordered for the search] forall p q. i <= p < q < j -> lt s[q] v -> lt s[p] v }
    ensures { i <= result <= j /\ (forall p. i <= p < result -> lt s[p] v) /\ (forall p. result <= p < j -> not lt s[p] v) }

  let predicate int_lt (a b: int) = a < b
  let predicate int_eq (a b: int) = a = b
  val v_binary_search (lt: 'a -> 'a -> bool) (s: seq 'a) (i j: int) (v: 'a) : bool
    requires { [@expl:range to search] 0 <= i <= j <= length s } requires { [@expl:range is ordered for the search] sorted_by lt s i j }
    ensures { result <-> exists p. i <= p < j /\ not lt s[p] v /\ not lt v s[p] }
  val v_find (eq: 'a -> 'a -> bool) (s: seq 'a) (i j: int) (v: 'a) : int
    requires { [@expl:range to search] 0 <= i <= j <= length s }
    ensures { i <= result <= j /\ (forall p. i <= p < result -> not eq s[p] v) /\ (result < j -> eq s[result] v) }

  (* an owning pointer to a heap array: null, or the elements *)
  type harr 'a = HNull | HArr (seq 'a)
  function hs (h: harr 'a) : seq 'a = match h with HArr s -> s | HNull -> empty end
  function lget (h: harr 'a) (i: int) : 'a = (hs h)[i]
  let h_is_null (h: harr 'a) : bool
    ensures { result <-> h = HNull }
  = match h with HNull -> true | HArr _ -> false end
  let hget (h: harr 'a) (i: int) : 'a
    requires { [@expl:array access within bounds] h <> HNull /\ 0 <= i < length (hs h) }
    ensures { result = (hs h)[i] }
  = match h with HArr s -> s[i] | HNull -> absurd end
  let hset (h: harr 'a) (i: int) (v: 'a) : harr 'a
    requires { [@expl:array access within bounds] h <> HNull /\ 0 <= i < length (hs h) }
    ensures { result = HArr (set (hs h) i v) }
  = match h with HArr s -> HArr (set s i v) | HNull -> absurd end
  (* new T[n]: arbitrary contents, allocation assumed to succeed *)
  val hnew (n: int) : harr 'a
    requires { [@expl:allocation size] n >= 0 }
    ensures { result = HArr (hs result) /\ length (hs result) = n }
  val h_sort (lt: 'a -> 'a -> bool) (h: harr 'a) (i j: int) : harr 'a
    requires { [@expl:range to sort] h <> HNull /\ 0 <= i <= j <= length (hs h) } requires { [@expl:comparison is a strict weak order] weak_order lt }
    ensures { result = HArr (hs result) /\ length (hs result) = length (hs h) /\ sorted_by lt (hs result) i j }
    ensures { forall v. among (hs result) i j v <-> among (hs h) i j v }
    ensures { forall p. 0 <= p < length (hs h) -> not i <= p < j -> (hs result)[p] = (hs h)[p] }
  val h_lower_bound (lt: 'a -> 'a -> bool) (h: harr 'a) (i j: int) (v: 'a) : int
    requires { [@expl:range to search] h <> HNull /\ 0 <= i <= j <= length (hs h) }
    requires { [@expl:range is ordered for the search] forall p q. i <= p < q < j -> lt (hs h)[q] v -> lt (hs h)[p] v }
    ensures { i <= result <= j /\ (forall p. i <= p < result -> lt (hs h)[p] v) /\ (forall p. result <= p < j -> not lt (hs h)[p] v) }
  val h_binary_search (lt: 'a -> 'a -> bool) (h: harr 'a) (i j: int) (v: 'a) : bool
    requires { [@expl:range to search] h <> HNull /\ 0 <= i <= j <= length (hs h) } requires { [@expl:range is ordered for the search] sorted_by lt (hs h) i j }
    ensures { result <-> exists p. i <= p < j /\ not lt (hs h)[p] v /\ not lt v (hs h)[p] }
  val h_find (eq: 'a -> 'a -> bool) (h: harr 'a) (i j: int) (v: 'a) : int
    requires { [@expl:range to search] h <> HNull /\ 0 <= i <= j <= length (hs h) }
    ensures { i <= result <= j /\ (forall p. i <= p < result -> not eq (hs h)[p] v) /\ (result < j -> eq (hs h)[result] v) }
  (* a local array: arbitrary contents *)
  val anew (n: int) : seq 'a
    requires { n >= 0 } ensures { length result = n }
  let hcopy (d: harr 'a) (o: int) (s: harr 'a) (p n: int) : harr 'a
    requires { [@expl:block copy within bounds] d <> HNull /\ s <> HNull /\ 0 <= n /\ 0 <= o /\ o + n <= length (hs d) /\ 0 <= p /\ p + n <= length (hs s) }
    ensures { result = HArr (hs result) /\ length (hs result) = length (hs d) }
    ensures { forall i. 0 <= i < length (hs d) -> (hs result)[i] = if o <= i < o + n then (hs s)[p + i - o] else (hs d)[i] }
  = match d with HNull -> absurd | HArr ds -> match s with HNull -> absurd | HArr ss ->
      HArr (create (length ds) (fun i -> if o <= i < o + n then ss[p + i - o] else ds[i])) end end

  (* ---- iterators into ordered containers: a key, or the end ---- *)
  type iter 'k = End | At 'k
  let it_key (i: iter 'k) : 'k
    requires { [@expl:iterator is not end()] i <> End }
    ensures { i = At result }
  = match i with At k -> k | End -> absurd end
end
