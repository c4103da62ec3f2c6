tu
#include "/repo/TameParse/Dfa/basic_lexer.h"
inline void verif_use(std::istream& s, std::wistream& w, const dfa::basic_lexer& l) { l.create_stream_from(s); l.create_stream_from(w); }
endtu
option opt wrapcast
mlw
  (* a std::istream: the characters still to come; get(c) takes one or fails at the end; a char is a signed byte *)
  type istream = { sb: seq int; sgood: bool }
  function schar (b: int) : int = if b < 128 then b else b - 256
  predicate bytes (s: seq int) = forall i. 0 <= i < length s -> 0 <= s[i] <= 255
  predicate points (s: seq int) = forall i. 0 <= i < length s -> 0 <= s[i] <= 0x10ffff
  predicate some (s: istream) = s.sgood /\ length s.sb > 0
  let in_getc (s: istream) (c: int) : (n: istream, d: int)
    requires { bytes s.sb }
    ensures { if some s then d = schar s.sb[0] /\ n.sb = s.sb[1 ..] /\ n.sgood else d = c /\ n.sb = s.sb /\ not n.sgood }
  = if s.sgood && length s.sb > 0 then ({ sb = s.sb[1 ..]; sgood = true }, let b = s.sb[0] in if b < 128 then b else b - 256) else ({ sb = s.sb; sgood = false }, c)
  val in_good (s: istream) : bool ensures { result = s.sgood }
  type wistream = { sw: seq int; wgood: bool }
  predicate wsome (s: wistream) = s.wgood /\ length s.sw > 0
  let in_getw (s: wistream) (c: int) : (n: wistream, d: int)
    requires { points s.sw }
    ensures { if wsome s then d = s.sw[0] /\ n.sw = s.sw[1 ..] /\ n.wgood else d = c /\ n.sw = s.sw /\ not n.wgood }
  = if s.wgood && length s.sw > 0 then ({ sw = s.sw[1 ..]; wgood = true }, s.sw[0]) else ({ sw = s.sw; wgood = false }, c)
  val in_goodw (s: wistream) : bool ensures { result = s.wgood }
endmlw
abstract istream "std::basic_istream<char>"
abstract wistream "std::basic_istream<wchar_t>"
ptr istream "std::basic_istream<char>" own=ref
ptr wistream "std::basic_istream<wchar_t>" own=ref
xfn in_getc "std::basic_istream<char>::get" upd=this,0
xfn in_good "std::basic_istream<char>::good" ty=bool
xfn in_getw "std::basic_istream<wchar_t>::get" upd=this,0
xfn in_goodw "std::basic_istream<wchar_t>::good" ty=bool
record ss "dfa::basic_lexer::stream_stream<std::basic_istream<char>, char>"
record sw "dfa::basic_lexer::stream_stream<std::basic_istream<wchar_t>, wchar_t>"
fn symbol_byte
  cxx dfa::basic_lexer::stream_stream<std::basic_istream<char>, char>::symbol_for(char)
  opt nothis
  requires -128 <= next <= 127
  ensures bytes_are_never_negative:: result = (if next < 0 then next + 256 else next)
fn read_bytes
  cxx dfa::basic_lexer::stream_stream<std::basic_istream<char>, char>::operator>>
  result this
  requires bytes this.ss_Stream.sb
  ensures every_byte_is_its_own_symbol:: some (old this.ss_Stream) -> v_result = (old this.ss_Stream).sb[0] /\ this.ss_Stream.sgood /\ this.ss_Stream.sb = (old this.ss_Stream).sb[1 ..]
  ensures the_end_is_reported:: not some (old this.ss_Stream) -> v_result = -3 /\ not this.ss_Stream.sgood
fn read_wide
  cxx dfa::basic_lexer::stream_stream<std::basic_istream<wchar_t>, wchar_t>::operator>>
  result this
  requires points this.sw_Stream.sw
  ensures every_character_is_its_own_symbol:: wsome (old this.sw_Stream) -> v_result = (old this.sw_Stream).sw[0] /\ this.sw_Stream.wgood /\ this.sw_Stream.sw = (old this.sw_Stream).sw[1 ..]
  ensures the_end_is_reported:: not wsome (old this.sw_Stream) -> v_result = -3 /\ not this.sw_Stream.wgood
