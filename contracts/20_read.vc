@module rd
@source read.rs
@source read/byte_buffer.rs
@type Reader
@type InputMark #[derive(Copy, Clone)]
@type SourceManager
@fns Reader::* ByteBuffer_nextByte ByteBuffer_currentByte InputMark::new
@skip Reader::new Reader::next_wolfram_char Reader::peek_wolfram_char
@default Reader req rinv(*$p)

@raw
/// `v` with `x` recorded: appended unless an equal one is there
pub open spec fn recorded(v: Seq<Issue>, x: Issue) -> Seq<Issue> { if has_issue(v, x) { v } else { v.push(x) } }

@fn Reader::addIssue
@props C15 C05
@ens[C15] $1.sev == Severity::Fatal ==> final(self).non_fatal_issues@ == old(self).non_fatal_issues@ && final(self).fatal_issues@ == (if old(self).fatal_issues@.len() >= 10 { old(self).fatal_issues@ } else { recorded(old(self).fatal_issues@, $1) })
@ens[C15] $1.sev != Severity::Fatal ==> final(self).fatal_issues@ == old(self).fatal_issues@ && final(self).non_fatal_issues@ == recorded(old(self).non_fatal_issues@, $1)
@ens[C15] iss_ok(old(self).fatal_issues@, old(self).non_fatal_issues@) ==> iss_ok(final(self).fatal_issues@, final(self).non_fatal_issues@)
@ens[C15] at_same_place(*old(self), *final(self)) && same(*old(self), *final(self)) && final(self).unsafe_character_encoding_flag == old(self).unsafe_character_encoding_flag && final(self).input == old(self).input
@ens rinv(*old(self)) ==> rinv(*final(self))
@pro
proof { reveal(iss_ok); }

@fn Reader::buffer
@props C03 C05
@req self.offset <= self.input@.len()
@ens res@ == self.input@.subrange(self.offset as int, self.input@.len() as int)
@fn Reader::buffer_at
@props C03 C05
@req $1 <= self.input@.len()
@ens res@ == self.input@.subrange($1 as int, self.input@.len() as int)
@fn Reader::offset_of
@trusted
@req exists|k: int| 0 <= k <= self.input@.len() && $1@ == self.input@.subrange(k, self.input@.len() as int)
@ens res == self.input@.len() - $1@.len()

@fn ByteBuffer_nextByte
@props C01 C05
@req old($0).offset <= old($0).input@.len()
@ens res == (if old($0).offset < old($0).input@.len() { old($0).input@[old($0).offset as int] } else { 0xff })
@ens final($0).offset == (if old($0).offset < old($0).input@.len() { old($0).offset + 1 } else { old($0).offset as int })
@ens final($0).wasEOF == (old($0).wasEOF || old($0).offset >= old($0).input@.len())
@ens same(*old($0), *final($0)) && final($0).SrcLoc == old($0).SrcLoc && final($0).unsafe_character_encoding_flag == old($0).unsafe_character_encoding_flag
@fn ByteBuffer_currentByte
@props C01 C05
@req $0.offset <= $0.input@.len()
@ens res == (if $0.offset < $0.input@.len() { $0.input@[$0.offset as int] } else { 0xff })

@fn Reader::src
@ens same_issues(*old(self), *final(self))
@ens *res.loc == old(self).SrcLoc && res.tab_width == old(self).tab_width
@ens final(self).SrcLoc == *final(res.loc)
@ens final(self).input == old(self).input && final(self).offset == old(self).offset && final(self).wasEOF == old(self).wasEOF
@ens final(self).tab_width == old(self).tab_width && final(self).check_issues == old(self).check_issues && final(self).compute_oob == old(self).compute_oob && final(self).encoding_mode == old(self).encoding_mode
@ens final(self).unsafe_character_encoding_flag == old(self).unsafe_character_encoding_flag

@fn Reader::mark
@props C02 C03
@ens res.offset == self.offset && res.src_loc == self.SrcLoc && res.wasEOF == Some(self.wasEOF)
@fn InputMark::new
@props C02 C03
@ens res.offset == $0 && res.src_loc == $1 && res.wasEOF is None
@fn Reader::seek
@pro
broadcast use pos_room;
proof { if rinv(*self) && mark_of(*self, $1) && uns(self.input@, $1.offset as int) { uns_mono(self.input@, $1.offset as int, self.offset as int); } }
@props C02 C03
@ens final(self).offset == $1.offset && final(self).SrcLoc == $1.src_loc
@ens final(self).wasEOF == (if $1.wasEOF is Some { $1.wasEOF->0 } else { old(self).wasEOF })
@ens same_issues(*old(self), *final(self))
@ens is_lc($1.src_loc) == is_lc(old(self).SrcLoc) ==> same(*old(self), *final(self))
@ens rinv(*old(self)) && mark_of(*old(self), $1) && $1.wasEOF is Some ==> rinv(*final(self)) && same(*old(self), *final(self))
@ens final(self).input == old(self).input && final(self).tab_width == old(self).tab_width
@ens final(self).check_issues == old(self).check_issues && final(self).compute_oob == old(self).compute_oob && final(self).encoding_mode == old(self).encoding_mode
@ens final(self).unsafe_character_encoding_flag == old(self).unsafe_character_encoding_flag
@fn Reader::setUnsafeCharacterEncodingFlag
@props C01
@ens final(self).unsafe_character_encoding_flag == Some($1)
@ens at_same_place(*old(self), *final(self)) && same(*old(self), *final(self))

@fn Reader::next_source_char
@props C01 C02 C05
@req rinv(*old(self))
@ens rinv(*final(self)) && same(*old(self), *final(self))
@ens[C01] res == step(old(self).input@, old(self).offset as int).0
@ens[C01] final(self).offset == step(old(self).input@, old(self).offset as int).1
@ens[C02] final(self).SrcLoc == adv(old(self).SrcLoc, old(self).tab_width, res)
@ens (old(self).wasEOF || res == CodePoint::EndOfFile ==> final(self).wasEOF) && (final(self).wasEOF ==> final(self).offset == final(self).input@.len())
@ens[C01] is_unsafe(res) ==> final(self).unsafe_character_encoding_flag == Some(unsafe_kind(old(self).input@, old(self).offset as int))
@ens[C01] !is_unsafe(res) ==> final(self).unsafe_character_encoding_flag == old(self).unsafe_character_encoding_flag
@ens !is_unsafe(res) && res != CodePoint::EndOfFile ==> !final(self).wasEOF
@pro
proof { step_facts(self.input@, self.offset as int); lemma_step(self.input@, self.tab_width, is_lc(self.SrcLoc), self.offset as int); }

@fn Reader::peek_source_char
@props C01 C05
@req rinv(*old(self))
@ens rinv(*final(self)) && same(*old(self), *final(self)) && at_same_place(*old(self), *final(self))
@ens[C01] res == step(old(self).input@, old(self).offset as int).0
