@module bytedec
@source read/byte_decoder.rs
@fns *
@skip SourceConvention::newSourceLocation

@raw
/// the work of one call of the byte decoder (the bookkeeping of rinv is added by Reader::next_source_char)
pub open spec fn dec_pre(r: Reader) -> bool {
  &&& r.offset <= r.input@.len()
  &&& (r.wasEOF ==> r.offset == r.input@.len())
  &&& loc_ok(r.SrcLoc, is_lc(r.SrcLoc), r.offset as int, r.tab_width)
  &&& small(r.input@.len() as int, r.tab_width)
}
/// an encoding issue is being recorded for the character that was just read
pub open spec fn only_issues(a: Reader, b: Reader) -> bool {
  at_same_place(a, b) && same(a, b) && a.unsafe_character_encoding_flag == b.unsafe_character_encoding_flag
}
pub open spec fn incremented(a: Reader, b: Reader) -> bool {
  a.offset == b.offset && a.wasEOF == b.wasEOF && same(a, b) && b.SrcLoc == adv(a.SrcLoc, a.tab_width, CodePoint::Char('a'))
}

@fn ByteDecoder_nextSourceCharacter
@props C01 C02 C05
@req dec_pre(*old($0))
@ens same(*old($0), *final($0))
@ens[C01] res == step(old($0).input@, old($0).offset as int).0
@ens[C01] final($0).offset == step(old($0).input@, old($0).offset as int).1
@ens[C02] final($0).SrcLoc == adv(old($0).SrcLoc, old($0).tab_width, res)
@ens (old($0).wasEOF || res == CodePoint::EndOfFile ==> final($0).wasEOF) && (final($0).wasEOF ==> final($0).offset == final($0).input@.len())
@ens[C01] is_unsafe(res) ==> final($0).unsafe_character_encoding_flag == Some(unsafe_kind(old($0).input@, old($0).offset as int))
@ens[C01] !is_unsafe(res) ==> final($0).unsafe_character_encoding_flag == old($0).unsafe_character_encoding_flag
@ens !is_unsafe(res) && res != CodePoint::EndOfFile ==> !final($0).wasEOF
@pro
reveal(step);
proof { loc_room($0.SrcLoc, is_lc($0.SrcLoc), $0.offset as int, $0.input@.len() as int, $0.tab_width); step_facts($0.input@, $0.offset as int); }

@fn ByteDecoder_nextSourceCharacter_uncommon
@attr #[verifier::rlimit(120)]
@attr #[verifier::spinoff_prover]
@props C01 C02 C05
@req dec_pre(*old($0))
@req !(0x20 <= byt(old($0).input@, old($0).offset as int) <= 0x7e) && byt(old($0).input@, old($0).offset as int) != 0x0a
@ens same(*old($0), *final($0))
@ens[C01] res == step(old($0).input@, old($0).offset as int).0
@ens[C01] final($0).offset == step(old($0).input@, old($0).offset as int).1
@ens[C02] final($0).SrcLoc == adv(old($0).SrcLoc, old($0).tab_width, res)
@ens (old($0).wasEOF || res == CodePoint::EndOfFile ==> final($0).wasEOF) && (final($0).wasEOF ==> final($0).offset == final($0).input@.len())
@ens[C01] is_unsafe(res) ==> final($0).unsafe_character_encoding_flag == Some(unsafe_kind(old($0).input@, old($0).offset as int))
@ens[C01] !is_unsafe(res) ==> final($0).unsafe_character_encoding_flag == old($0).unsafe_character_encoding_flag
@ens !is_unsafe(res) && res != CodePoint::EndOfFile ==> !final($0).wasEOF
@pro
hide(adv); hide(loc_ok);
broadcast use adv_plain;
reveal(step);
proof { loc_room($0.SrcLoc, is_lc($0.SrcLoc), $0.offset as int, $0.input@.len() as int, $0.tab_width); step_facts($0.input@, $0.offset as int); }

@fn ByteDecoder_strangeWarning;ByteDecoder_nonASCIIWarning
@props C01 C05
@req loc_le($2, old($0).SrcLoc)
@ens only_issues(*old($0), *final($0))
@loop *
invariant only_issues(*old($0), *$0),

@fn ByteDecoder_validStrange;ByteDecoder_validMB
@props C01 C02 C05
@req room(old($0).SrcLoc)
@ens incremented(*old($0), *final($0)) && final($0).unsafe_character_encoding_flag == old($0).unsafe_character_encoding_flag
@ens res == $1

@fn ByteDecoder_incomplete1ByteSequence
@props C01 C02 C05
@req room(old($0).SrcLoc) && room($1)
@ens incremented(*old($0), *final($0)) && final($0).unsafe_character_encoding_flag == Some(UnsafeCharacterEncoding::IncompleteUTF8Sequence)
@ens res == CodePoint::Unsafe1ByteUtf8Sequence
@fn ByteDecoder_incomplete2ByteSequence
@props C01 C02 C05
@req room(old($0).SrcLoc) && room($1)
@ens incremented(*old($0), *final($0)) && final($0).unsafe_character_encoding_flag == Some(UnsafeCharacterEncoding::IncompleteUTF8Sequence)
@ens res == CodePoint::Unsafe2ByteUtf8Sequence
@fn ByteDecoder_incomplete3ByteSequence
@props C01 C02 C05
@req room(old($0).SrcLoc) && room($1)
@ens incremented(*old($0), *final($0)) && final($0).unsafe_character_encoding_flag == Some(UnsafeCharacterEncoding::IncompleteUTF8Sequence)
@ens res == CodePoint::Unsafe3ByteUtf8Sequence
@fn ByteDecoder_incompleteByteSequence
@props C01 C02 C05
@req room(old($0).SrcLoc) && room($1)
@ens incremented(*old($0), *final($0)) && final($0).unsafe_character_encoding_flag == Some(UnsafeCharacterEncoding::IncompleteUTF8Sequence)
@ens res == $2
@fn ByteDecoder_straySurrogate
@props C01 C02 C05
@req room(old($0).SrcLoc) && room($1)
@ens incremented(*old($0), *final($0)) && final($0).unsafe_character_encoding_flag == Some(UnsafeCharacterEncoding::StraySurrogate)
@ens res == CodePoint::Unsafe3ByteUtf8Sequence
@fn ByteDecoder_bom
@props C01 C02 C05
@req room(old($0).SrcLoc) && room($1)
@ens incremented(*old($0), *final($0)) && final($0).unsafe_character_encoding_flag == Some(UnsafeCharacterEncoding::BOM)
@ens res == CodePoint::Unsafe3ByteUtf8Sequence

@fn SourceManager::newline
@props C02 C05
@req room(*old(self).loc)
@ens *final(final(self).loc) == *final(old(self).loc)
@ens[C02] *final(self).loc == adv(*old(self).loc, old(self).tab_width, CodePoint::Char('\n'))
@fn SourceManager::windowsNewline
@props C02 C05
@req room(*old(self).loc)
@ens *final(final(self).loc) == *final(old(self).loc)
@ens[C02] *final(self).loc == adv(*old(self).loc, old(self).tab_width, CodePoint::CRLF)
@fn SourceManager::tab
@props C02 C05
@req room(*old(self).loc) && tabroom(*old(self).loc, old(self).tab_width) && old(self).tab_width >= 1
@ens *final(final(self).loc) == *final(old(self).loc)
@ens[C02] *final(self).loc == adv(*old(self).loc, old(self).tab_width, CodePoint::Char('\t'))
@pro
proof {
    if *self.loc is LineColumn {
        let col = self.loc->LineColumn_0.1.0; let t = self.tab_width;
        let q = (col - 1) / (t as int);
        assert(t * q <= col - 1 && (q + 1) * t == t * q + t && 0 <= t * q) by (nonlinear_arith) requires q == (col - 1) / (t as int), t >= 1, col >= 1;
    }
}
@fn SourceManager::increment
@props C02 C05
@req room(*old(self).loc)
@ens *final(final(self).loc) == *final(old(self).loc)
@ens[C02] *final(self).loc == adv(*old(self).loc, old(self).tab_width, CodePoint::Char('a'))
