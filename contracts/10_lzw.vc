@@ module lzw
@@ top
#[allow(unused_imports)] use crate::lzspec::*;

@@ fn Bits as From<u8>::from
@@ ret r
@@ spec
    ensures r.0 == (if bits < 12 { bits } else { 12 }),

@@ fn Bits::entries
@@ ret r
@@ spec
    requires self.0 <= 12,
    ensures r == p2(self.0 as nat), r <= 4096,
@@ at start
    proof { w_shl16(self.0 as u16); }

@@ fn Bits::mask
@@ ret r
@@ spec
    requires self.0 <= 12,
    ensures r == p2(self.0 as nat) - 1, r == ((1u32 << (self.0 as u32)) - 1) as u32,
@@ at start
    proof { w_mask(0, self.0 as u32); p2_pos(self.0 as nat); }

@@ fn Bits as AddAssign<u8>::add_assign

@@ fn u8 as From<Bits>::from
@@ ret r
@@ spec
    ensures r == bits.0,

@@ fn CNode::new
@@ ret r
@@ spec
    ensures r.next == next, r.left.is_none(), r.right.is_none(), r.data == data,

@@ fn CNode::link
@@ ret r
@@ spec
    ensures r == self.link_spec(ordering),

@@ fn CNode::set_link
@@ spec
    ensures
        final(self).data == old(self).data,
        forall|o: Ordering| #[trigger] final(self).link_spec(o) == (if o == ordering { Some(code) } else { old(self).link_spec(o) }),

@@ fn Compressor::new
@@ ret r
@@ spec
    requires 2 <= min_code_bits <= 8,
    ensures r.wf(), r.fresh(), r.min_code_bits == min_code_bits,
@@ at end
        proof { assert(linked(com.table@, base_dict(min_code_bits as nat))); p2_vals(); }

@@ fn Compressor::clear_code
@@ ret r
@@ spec
    requires 2 <= self.min_code_bits <= 8,
    ensures r == p2(self.min_code_bits as nat), 4 <= r <= 256,
@@ at start
    proof { w_shl16_8(self.min_code_bits); p2_vals();
        if self.min_code_bits < 8 { p2_mono(self.min_code_bits as nat, 8); }
        if self.min_code_bits > 2 { p2_mono(2, self.min_code_bits as nat); } }

@@ fn Compressor::end_code
@@ ret r
@@ spec
    requires 2 <= self.min_code_bits <= 8,
    ensures r == p2(self.min_code_bits as nat) + 1, 5 <= r <= 257,

@@ fn Compressor::next_code
@@ ret r
@@ spec
    requires self.table@.len() <= 65535,
    ensures r == self.table@.len(),

@@ fn Compressor::reset_table
@@ spec
    requires 2 <= old(self).min_code_bits <= 8,
    ensures
        *final(self) == (Compressor { table: final(self).table, ..*old(self) }),
        linked(final(self).table@, base_dict(old(self).min_code_bits as nat)),
@@ loop 0 iter it
        invariant
            *self == (Compressor { table: self.table, ..*old(self) }),
            2 <= self.min_code_bits <= 8,
            it.seq().len() == p2(self.min_code_bits as nat), p2(self.min_code_bits as nat) <= 256,
            forall|i: int| 0 <= i < it.seq().len() ==> it.seq()[i] == i,
            self.table@.len() == it.index@,
            forall|i: int| 0 <= i < self.table@.len() ==> (#[trigger] self.table@[i]).leaf() && self.table@[i].data == i,
@@ at end
        proof {
            let t = self.table@;
            let d = base_dict(self.min_code_bits as nat);
            assert(t.len() == d.len());
            assert forall|i: int, o: Ordering| 0 <= i < t.len() implies #[trigger] link_ok(t, d, i, o) by { assert(t[i].leaf()); }
        }

@@ fn Compressor::push_node
@@ spec
    ensures
        *final(self) == (Compressor { table: final(self).table, ..*old(self) }),
        final(self).table@.len() == old(self).table@.len() + 1,
        final(self).table@.last().next == next,
        final(self).table@.last().left.is_none(),
        final(self).table@.last().right.is_none(),
        final(self).table@.last().data == data,
        final(self).table@ == old(self).table@.push(final(self).table@.last()),

@@ fn Compressor::node_mut
@@ ret r
@@ spec
    requires code < old(self).table@.len(),
    ensures
        *r == old(self).table@[code as int],
        final(self).table@ == old(self).table@.update(code as int, *final(r)),
        *final(self) == (Compressor { table: final(self).table, ..*old(self) }),

@@ fn Compressor::pack
@@ spec
    requires
        old(self).wf_bits(), code < p2(old(self).code_bits.0 as nat),
    ensures
        final(self).wf_bits(),
        *final(self) == (Compressor { code: final(self).code, n_bits: final(self).n_bits, ..*old(self) }),
        old(buffer)@.is_prefix_of(final(buffer)@),
        bb(final(buffer)@) + final(self).pend() == bb(old(buffer)@) + old(self).pend() + bits(code as nat, old(self).code_bits.0 as nat),
@@ at start
        proof {
            p2_vals();
            let w = self.code_bits.0 as nat;
            if w < 12 { p2_mono(w, 12); }
            w_or(self.code, code as u32, self.n_bits as u32);
            bits_join(self.code as nat, self.n_bits as nat, code as nat, w);
            vstd::arithmetic::power2::lemma_pow2_adds(self.n_bits as nat, w);
            assert(self.code as nat + code as nat * p2(self.n_bits as nat) < p2(self.n_bits as nat + w)) by (nonlinear_arith)
                requires self.code < p2(self.n_bits as nat), code as nat + 1 <= p2(w), p2(self.n_bits as nat) * p2(w) == p2(self.n_bits as nat + w);
        }
        let ghost all = bb(buffer@) + self.pend() + bits(code as nat, self.code_bits.0 as nat);
@@ loop 0
            invariant
                *self == (Compressor { code: self.code, n_bits: self.n_bits, ..*old(self) }),
                self.n_bits < 20,
                self.code < p2(self.n_bits as nat),
                old(buffer)@.is_prefix_of(buffer@),
                bb(buffer@) + self.pend() == all,
            decreases self.n_bits
@@ at loop 0 before
        proof {
            assert(bb(buffer@) + self.pend() =~= all);
        }
@@ at loop 0 start
            proof {
                let c = self.code;
                let n = self.n_bits as nat;
                let low = c as u8;
                assert(c as u8 == c % 256 && (c & 0xFF) as u8 == c % 256 && (c % 256) as u8 == c % 256) by (bit_vector);
                p2_vals();
                w_shr(c, 8);
                bits_split(c as nat, 8, n);
                bb_push(buffer@, low);
                assert(bits(c as nat, n) =~= bits(low as nat, 8) + bits((c >> 8) as nat, (n - 8) as nat)) by {
                    assert(bits(c as nat, n) =~= bits(c as nat, n).take(8) + bits(c as nat, n).skip(8)) by { bits_len(c as nat, n); }
                }
                assert(bb(buffer@.push(low)) + bits((c >> 8) as nat, (n - 8) as nat) =~= bb(buffer@) + bits(c as nat, n));
                vstd::arithmetic::power2::lemma_pow2_adds(8, (n - 8) as nat);
                assert((c >> 8) < p2((n - 8) as nat)) by (nonlinear_arith)
                    requires (c >> 8) as nat == c as nat / 256, c < p2(n), p2(n) == 256 * p2((n - 8) as nat);
            }

@@ fn Compressor::search_insert
@@ ret r
@@ spec
    requires
        old(self).table@.len() <= 4096,
        match code { Some(c) => c < old(self).table@.len(), None => true },
        old(self).is_linked(),
    ensures
        *final(self) == (Compressor { table: final(self).table, ..*old(self) }),
        code.is_none() ==> r == Some(data as u16) && final(self).table@ == old(self).table@,
        code.is_some() ==> insert_post(old(self).table@, final(self).table@, code.unwrap(), data, r),

@@ fn Compressor::insert_node
@@ attr #[verifier::loop_isolation(false)]
@@ ret r
@@ spec
    requires
        old(self).table@.len() <= 4096,
        code < old(self).table@.len(),
        old(self).is_linked(),
    ensures
        *final(self) == (Compressor { table: final(self).table, ..*old(self) }),
        insert_post(old(self).table@, final(self).table@, code, data, r),
@@ at start
        let ghost t0 = old(self).table@;
        let ghost me = *old(self);
        let ghost mut k = code as int;
        let ghost outer = code;
        proof {
            let d = choose|d: Seq<Seq<u8>>| linked(t0, d);
            assert forall|i: int, o: Ordering| 0 <= i < t0.len() implies (match #[trigger] t0[i].link_spec(o) { None => true, Some(c) => i < c < t0.len() }) by {
                assert(link_ok(t0, d, i, o));
            }
        }
@@ loop 0
            invariant
                t0.len() <= 4096, links_up(t0), outer < t0.len(), next_code == t0.len(),
                0 <= k < t0.len(), *node == t0[k],
                t0 == old(self).table@,
                after_borrow(self).table@ == t0.update(k, *final(node)),
                *after_borrow(self) == (Compressor { table: after_borrow(self).table, ..*old(self) }),
                ordering == Ordering::Equal ==> k == outer,
                ordering != Ordering::Equal ==> t0[k].data != data &&
                    forall|d: Seq<Seq<u8>>| #[trigger] linked(t0, d) ==> d[k].drop_last() == d[outer as int],
            decreases t0.len() - k
@@ at before node = self.node_mut(code)
            proof {
                assert(after_borrow(self).table@ =~= t0);
                assert forall|d: Seq<Seq<u8>>| #[trigger] linked(t0, d) implies d[code as int].drop_last() == d[outer as int] && d[code as int].last() == t0[code as int].data by {
                    assert(t0[k].link_spec(ordering) == Some(code));
                    assert(link_ok(t0, d, k, ordering));
                    assert(d[code as int].drop_last() =~= d[outer as int]);
                }
                k = code as int;
            }
@@ at before return Some(code)
                proof {
                    assert(after_borrow(self).table@ =~= t0);
                    assert forall|d: Seq<Seq<u8>>| #[trigger] linked(t0, d) implies d[code as int] == d[outer as int].push(data) by {
                        assert(d[code as int] =~= d[code as int].drop_last().push(d[code as int].last()));
                    }
                }
@@ at end
        proof {
            assert forall|d: Seq<Seq<u8>>| #[trigger] linked(t0, d) implies linked(self.table@, d.push(d[outer as int].push(data))) by {
                let d2 = d.push(d[outer as int].push(data));
                let t1 = self.table@;
                assert forall|i: int, o: Ordering| 0 <= i < t1.len() implies #[trigger] link_ok(t1, d2, i, o) by {
                    if i < t0.len() {
                        assert(link_ok(t0, d, i, o));
                        if i == k && o == ordering {
                            assert(t1[i].link_spec(o) == Some(next_code));
                            assert(d[outer as int].push(data).drop_last() =~= d[outer as int]);
                        } else {
                            assert(t1[i].link_spec(o) == t0[i].link_spec(o));
                        }
                    } else {
                        assert(t1[i].link_spec(o).is_none());
                    }
                }
                assert forall|i: int| 0 <= i < t1.len() implies (#[trigger] d2[i]).len() > 0 && d2[i].last() == t1[i].data by {
                    if i < t0.len() { assert(d[i].len() > 0 && d[i].last() == t0[i].data); }
                }
            }
        }

@@ fn Compressor::compress
@@ attr #[verifier::loop_isolation(false)]
@@ spec
    requires
        old(self).wf(), old(self).fresh(),
        forall|i: int| 0 <= i < bytes@.len() ==> (#[trigger] bytes@[i]) < p2(old(self).min_code_bits as nat),
    ensures
        old(buffer)@.is_prefix_of(final(buffer)@),
        lz_encodes(old(self).min_code_bits as nat, final(buffer)@.skip(old(buffer)@.len() as int), bytes@),
@@ at start
        hide(lz_run); hide(bits); hide(bb); hide(lz_rel); hide(linked); hide(tail_state); hide(lz_code); hide(clear_first);
        let ghost b0 = bb(buffer@);
        let ghost len0 = buffer@.len();
        let ghost min = self.min_code_bits as nat;
        let ghost mut em: Seq<bool> = Seq::empty();
        let ghost mut gd: Seq<Seq<u8>> = base_dict(min);
        proof {
            bits_len(self.code as nat, 0);
            assert(b0 + em =~= b0 + self.pend());
            pow_facts(min);
        }
@@ loop 0 iter it
            invariant
                2 <= min <= 8, min == self.min_code_bits,
                self.wf_bits(),
                it.seq().len() == bytes@.len(),
                forall|i: int| 0 <= i < bytes@.len() ==> *(#[trigger] it.seq()[i]) == bytes@[i],
                forall|i: int| 0 <= i < bytes@.len() ==> (#[trigger] bytes@[i]) < p2(min),
                old(buffer)@.is_prefix_of(buffer@), len0 == old(buffer)@.len(), b0 == bb(old(buffer)@),
                bb(buffer@) + self.pend() == b0 + em,
                lz_rel(min, em, gd, code, bytes@.take(it.index@), self.code_bits.0 as nat),
                linked(self.table@, gd),
@@ at before let mut code
        proof {
            let c = bits(p2(min), min + 1);
            rel_init(min);
            assert(em + c =~= c);
            em = c;
            assert(bb(buffer@) + self.pend() =~= b0 + em);
            assert(bytes@.take(0) =~= Seq::empty());
        }
@@ at before let prefix = self.search_insert
            let ghost c0 = code;
            let ghost i0 = it.index@;
            let ghost w0 = self.code_bits.0 as nat;
            proof {
                rel_bounds(min, em, gd, code, bytes@.take(i0), w0);
                linked_len(self.table@, gd);
                assert(bytes@.take(i0 + 1) =~= bytes@.take(i0).push(*data));
            }
@@ at before code = prefix
                proof {
                    if c0.is_some() {
                        rel_extend(min, em, gd, c0.unwrap(), prefix.unwrap(), bytes@.take(i0), *data, w0);
                    } else {
                        rel_first(min, em, gd, bytes@.take(i0), *data, w0);
                    }
                }
@@ at before let next_code = self.next_code()
            proof {
                let c = c0.unwrap();
                rel_emit(min, em, gd, c, bytes@.take(i0), *data, w0);
                assert(bb(buffer@) + self.pend() =~= b0 + (em + bits(c as nat, w0)));
                em = em + bits(c as nat, w0);
                gd = gd.push(gd[c as int].push(*data));
                assert(linked(self.table@, gd));
                linked_len(self.table@, gd);
                pow_range(w0); p2_vals();
            }
@@ at before self.reset_table()
                    proof {
                        assert(bb(buffer@) + self.pend() =~= b0 + (em + bits(p2(min), 12)));
                        rel_clear(min, em, gd, bytes@.take(i0), *data);
                        em = em + bits(p2(min), 12);
                        gd = base_dict(min);
                    }
@@ at before code = Some(*data as Code)
            proof {
                assert(lz_rel(min, em, gd, Some(*data as u16), bytes@.take(i0 + 1), self.code_bits.0 as nat));
            }
@@ at loop 0 after
        let ghost w0 = self.code_bits.0 as nat;
        proof {
            assert(bytes@.take(bytes@.len() as int) =~= bytes@);
            rel_bounds(min, em, gd, code, bytes@, w0);
        }
@@ at before self.pack(self.end_code(), buffer)
        proof {
            if code.is_some() {
                let c = code.unwrap();
                rel_last(min, em, gd, c, bytes@, w0);
                pow_range(w0);
                assert(bb(buffer@) + self.pend() =~= b0 + (em + bits(c as nat, w0)));
                em = em + bits(c as nat, w0);
            } else {
                rel_none(min, em, gd, bytes@, w0);
            }
        }
@@ at after self.pack(self.end_code(), buffer)
        let ghost buf1 = buffer@;
        let ghost n1 = self.n_bits as nat;
        let ghost c1 = self.code;
        proof {
            assert(w0 == self.code_bits.0);
            assert(bb(buffer@) + self.pend() =~= b0 + (em + bits(p2(min) + 1, w0)));
        }
@@ at end
        proof {
            let x = buffer@.skip(len0 as int);
            let x1 = buf1.skip(len0 as int);
            let e = bits(p2(min) + 1, w0);
            let t = em + e;
            assert(buffer@ =~= old(buffer)@ + x);
            assert(buf1 =~= old(buffer)@ + x1);
            bb_cat(old(buffer)@, x1);
            bb_len(buf1); bb_len(old(buffer)@); bb_len(x1);
            bits_len(c1 as nat, n1);
            bits_len(p2(min) + 1, w0);
            let pend = bits(c1 as nat, n1);
            let lhs = bb(buf1) + pend;
            assert(lhs == b0 + t);
            assert(lhs.skip(b0.len() as int) =~= bb(x1) + pend);
            assert((b0 + t).skip(b0.len() as int) =~= t);
            assert(bb(x1) + pend == t);
            if n1 > w0 {
                let last = c1 as u8;
                assert(n1 < 8);
                p2_vals();
                p2_mono(n1, 8);
                assert(c1 < 256 ==> c1 as u8 == c1) by (bit_vector);
                bits_join(c1 as nat, n1, 0, (8 - n1) as nat);
                assert(c1 as nat + 0 * p2(n1) == c1 as nat) by (nonlinear_arith);
                bb_push(x1, last);
                assert(buffer@.len() == buf1.len() + 1); assert(buffer@.last() == last); assert(buffer@ == buf1.push(last));
                assert(x =~= x1.push(last));
                let z = bits(0, (8 - n1) as nat);
                assert(bb(x) =~= t + z);
                end_padded(min, em, w0, (8 - n1) as nat, bytes@);
            } else {
                assert(x =~= x1);
                end_cut(min, em, w0, n1, bb(x), bytes@);
            }
        }

@@ fn Decompressor::new
@@ ret r
@@ spec
    requires 2 <= min_code_bits <= 8,
    ensures r.wf(), r.st() == lz_init(min_code_bits as nat), r.pend().len() == 0,
@@ at end
        proof { assert(dec.st().dict =~= base_dict(min_code_bits as nat)); pow_facts(min_code_bits as nat); p2_vals();
            assert(dict_of(dec.table@).len() == dec.table@.len()); }

@@ fn Decompressor::clear_code
@@ ret r
@@ spec
    requires 2 <= self.min_code_bits <= 8,
    ensures r == p2(self.min_code_bits as nat), 4 <= r <= 256,
@@ at start
    proof { w_shl16_8(self.min_code_bits); pow_facts(self.min_code_bits as nat); }

@@ fn Decompressor::end_code
@@ ret r
@@ spec
    requires 2 <= self.min_code_bits <= 8,
    ensures r == p2(self.min_code_bits as nat) + 1, 5 <= r <= 257,

@@ fn Decompressor::next_code
@@ ret r
@@ spec
    requires self.table@.len() <= 65535,
    ensures r == self.table@.len(),

@@ fn Decompressor::reset_table
@@ spec
    requires 2 <= old(self).min_code_bits <= 8,
    ensures
        *final(self) == (Decompressor { table: final(self).table, ..*old(self) }),
        parents_down(final(self).table@),
        dict_of(final(self).table@) == base_dict(old(self).min_code_bits as nat),
        dict_of(final(self).table@).len() == final(self).table@.len(),
@@ loop 0 iter it
        invariant
            *self == (Decompressor { table: self.table, ..*old(self) }),
            2 <= self.min_code_bits <= 8,
            it.seq().len() == p2(self.min_code_bits as nat), p2(self.min_code_bits as nat) <= 256,
            forall|i: int| 0 <= i < it.seq().len() ==> it.seq()[i] == i,
            self.table@.len() == it.index@,
            forall|i: int| 0 <= i < self.table@.len() ==> (#[trigger] self.table@[i]).parent.is_none() && self.table@[i].data == i,
@@ at end
        proof {
            assert(dict_of(self.table@) =~= base_dict(self.min_code_bits as nat));
        }

@@ fn Decompressor::push_node
@@ spec
    ensures
        *final(self) == (Decompressor { table: final(self).table, ..*old(self) }),
        final(self).table@ == old(self).table@.push(DNode { parent, data }),

@@ fn Decompressor::lookup
@@ attr #[verifier::loop_isolation(false)]
@@ ret r
@@ spec
    requires code < self.table@.len(), parents_down(self.table@),
    ensures r == dict_of(self.table@)[code as int][0],
@@ at start
        let ghost t = self.table@;
        let ghost c0 = code as int;
        proof { tstr_nonempty(t, c0); }
@@ loop 0
            invariant
                t == self.table@, parents_down(t),
                match node.parent { None => true, Some(p) => p < t.len() },
                (match node.parent { None => node.data, Some(p) => tstr(t, p as int)[0] }) == tstr(t, c0)[0],
            decreases (match node.parent { None => 0int, Some(p) => p + 1 })
@@ at loop 0 start
            proof { tstr_nonempty(t, code as int);
                match t[code as int].parent { Some(p) => { tstr_nonempty(t, p as int); } None => {} } }

@@ fn Decompressor::unpack
@@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@@ ret r
@@ spec
    requires old(self).wf_bits(),
    ensures
        final(self).wf_bits(),
        *final(self) == (Decompressor { code: final(self).code, n_bits: final(self).n_bits, ..*old(self) }),
        r.1 <= buffer@.len(),
        ({
            let all = old(self).pend() + bb(buffer@);
            let w = old(self).code_bits.0 as nat;
            match r.0 {
                Some(code) => all.len() >= w && code == val(all.take(w as int)) && code < p2(w)
                    && final(self).pend() + bb(buffer@.skip(r.1 as int)) == all.skip(w as int),
                None => all.len() < w && final(self).pend() == all,
            }
        }),
@@ at start
        let ghost all = self.pend() + bb(buffer@);
        let ghost w = self.code_bits.0 as nat;
        proof { assert(buffer@.len() == buffer.len()); assert(buffer@.skip(0) =~= buffer@); bits_len(self.code as nat, self.n_bits as nat); }
@@ loop 0 iter it
            invariant_except_break
                n_consumed == it.index@,
            invariant
                n_consumed <= buffer@.len(),
                self.wf_bits(), w == code_bits, w == self.code_bits.0,
                *self == (Decompressor { code: self.code, n_bits: self.n_bits, ..*old(self) }),
                it.seq().len() == buffer@.len(),
                forall|i: int| 0 <= i < buffer@.len() ==> *(#[trigger] it.seq()[i]) == buffer@[i],
                self.pend() + bb(buffer@.skip(n_consumed as int)) == all,
            ensures
                self.n_bits >= code_bits || n_consumed == buffer@.len(),
@@ at before self.code |=
            proof {
                p2_vals();
                let n = self.n_bits as nat;
                w_or(self.code, *data as u32, n as u32);
                bits_join(self.code as nat, n, *data as nat, 8);
                vstd::arithmetic::power2::lemma_pow2_adds(n, 8);
                assert(self.code as nat + *data as nat * p2(n) < p2(n + 8)) by (nonlinear_arith)
                    requires self.code < p2(n), *data as nat + 1 <= 256, p2(n) * 256 == p2(n + 8);
                let s = buffer@.skip(n_consumed as int);
                assert(s.drop_first() =~= buffer@.skip(n_consumed + 1));
                assert(s[0] == *data);
                assert(self.pend() + bb(s) =~= (self.pend() + bits(*data as nat, 8)) + bb(s.drop_first()));
            }
@@ at loop 0 after
        proof {
            let n = self.n_bits as nat;
            let c = self.code;
            bits_len(c as nat, n);
            if n >= w {
                p2_vals();
                if w < 12 { p2_mono(w, 12); }
                w_mask(c, w as u32);
                w_shr(c, w as u32);
                bits_split(c as nat, w, n);
                val_bits(c as nat % p2(w), w);
                assert(all.take(w as int) =~= bits(c as nat, n).take(w as int));
                let b2 = bb(buffer@.skip(n_consumed as int));
                assert(all.skip(w as int) =~= bits(c as nat, n).skip(w as int) + b2);
                let m = c & ((1u32 << (w as u32)) - 1) as u32;
                assert(m < 4096 ==> m as u16 as u32 == m) by (bit_vector);
                vstd::arithmetic::power2::lemma_pow2_adds(w, (n - w) as nat);
                p2_pos(w);
                div_lt(c as nat, p2(w), p2((n - w) as nat));
            } else {
                assert(buffer@.skip(n_consumed as int) =~= Seq::empty());
                assert(bb(Seq::<u8>::empty()) =~= Seq::empty());
                assert(all =~= self.pend());
            }
        }

@@ fn Decompressor::decompress
@@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@@ ret r
@@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        ({
            let m = lz_run(old(self).st(), old(self).pend() + bb(bytes@));
            &&& r.is_ok() <==> m.ok
            &&& r.is_err() ==> r.unwrap_err() is InvalidLzwData
            &&& final(buffer)@ == old(buffer)@ + m.out
            &&& m.ok ==> final(self).st() == m.st && (!m.st.ended ==> final(self).pend() == m.rest)
        }),
@@ at start
        let ghost st0 = self.st();
        let ghost all0 = self.pend() + bb(bytes@);
        let ghost mut out: Seq<u8> = Seq::empty();
        proof {
            let m = lz_run(st0, all0);
            assert(Seq::<u8>::empty() + m.out =~= m.out);
            assert(buffer@ + out =~= buffer@);
        }
@@ loop 0
            invariant_except_break
                buffer@ == old(buffer)@ + out,
                ({
                    let m = lz_run(st0, all0);
                    let m2 = lz_run(self.st(), self.pend() + bb(bytes@));
                    m.ok == m2.ok && m.out == out + m2.out && m.st == m2.st && m.rest == m2.rest
                }),
            invariant
                self.wf(),
            ensures
                self.wf(), buffer@ == old(buffer)@ + lz_run(st0, all0).out, lz_run(st0, all0).ok,
                self.st() == lz_run(st0, all0).st, !self.done ==> self.pend() == lz_run(st0, all0).rest,
            decreases (if self.done { 0 } else { 1 + self.n_bits + 8 * bytes@.len() })
@@ at loop 0 start
            let ghost s1 = self.st();
            let ghost a1 = self.pend() + bb(bytes@);
            let ghost me1 = *self;
            proof {
                lz_run_stop(s1, a1);
                bits_len(self.code as nat, self.n_bits as nat);
                bb_len(bytes@);
            }
@@ at before self.decompress_code(code, buffer)
            let ghost buf1 = buffer@;
            proof {
                bits_len(self.code as nat, self.n_bits as nat);
                bb_len(bytes@.skip(n_consumed as int));
                pow_range(s1.w);
                assert(self.st() == s1);
                assert((out + lz_code(s1, code as nat).unwrap().1) + lz_run(lz_code(s1, code as nat).unwrap().0, a1.skip(s1.w as int)).out
                    =~= out + (lz_code(s1, code as nat).unwrap().1 + lz_run(lz_code(s1, code as nat).unwrap().0, a1.skip(s1.w as int)).out));
                assert(buffer@ + lz_code(s1, code as nat).unwrap().1 =~= old(buffer)@ + (out + lz_code(s1, code as nat).unwrap().1));
            }
@@ at after self.decompress_code(code, buffer)
            proof {
                out = out + lz_code(s1, code as nat).unwrap().1;
            }

@@ fn Decompressor::decompress_code
@@ ret r
@@ spec
    requires old(self).wf(), !old(self).done, code < 4096,
    ensures
        final(self).wf(),
        final(self).code == old(self).code, final(self).n_bits == old(self).n_bits,
        r.is_err() ==> r.unwrap_err() is InvalidLzwData,
        match lz_code(old(self).st(), code as nat) {
            Some((st, o)) => r.is_ok() && final(self).st() == st && final(buffer)@ == old(buffer)@ + o,
            None => r.is_err() && final(buffer)@ == old(buffer)@,
        },
@@ at start
        proof { pow_facts(self.min_code_bits as nat); assert(buffer@ + Seq::<u8>::empty() =~= buffer@); }

@@ fn Decompressor::decompress_data
@@ ret r
@@ spec
    requires
        old(self).wf(), !old(self).done, code < 4096,
        code != p2(old(self).min_code_bits as nat), code != p2(old(self).min_code_bits as nat) + 1,
    ensures
        final(self).code == old(self).code, final(self).n_bits == old(self).n_bits,
        r.is_err() ==> r.unwrap_err() is InvalidLzwData && *final(self) == *old(self),
        final(self).wf(), final(self).prefix == old(self).prefix,
        r.is_ok() ==> code < final(self).table@.len(),
        match lz_code(old(self).st(), code as nat) {
            Some((st, o)) => r.is_ok() && (LzState { prefix: Some(code as nat), ..final(self).st() }) == st && final(buffer)@ == old(buffer)@ + o,
            None => r.is_err() && final(buffer)@ == old(buffer)@,
        },
@@ at start
        let ghost t0 = self.table@;
        let ghost st0 = self.st();
        proof {
            p2_vals();
            pow_facts(self.min_code_bits as nat);
            pow_range(self.code_bits.0 as nat);
        }
@@ at before self.decompress_buffer
                proof {
                    let t1 = self.table@;
                    if t0.len() < 4096 {
                        push_dict(t0, DNode { parent: Some(prefix), data });
                        if code == t0.len() {
                            assert(dict_of(t1)[code as int] =~= dict_of(t0)[prefix as int].push(data));
                        }
                    }
                    assert(dict_of(t1)[code as int] == lz_string(st0, prefix as nat, code as nat));
                    tstr_nonempty(t0, prefix as int);
                    if code < t0.len() { tstr_nonempty(t0, code as int); }
                }
@@ at end
        proof {
            pow_range(self.code_bits.0 as nat);
            if st0.prefix.is_none() {
                assert(buffer@ =~= old(buffer)@ + seq![code as u8]);
            }
        }

@@ fn Decompressor::decompress_buffer
@@ attr #[verifier::loop_isolation(false)]
@@ spec
    requires code < self.table@.len(), parents_down(self.table@),
    ensures final(buffer)@ == old(buffer)@ + dict_of(self.table@)[code as int],
@@ at start
        let ghost t = self.table@;
        let ghost c0 = code as int;
        let ghost full = tstr(t, c0);
        proof { tstr_nonempty(t, c0); }
@@ loop 0
            invariant
                t == self.table@, parents_down(t), start == old(buffer)@.len(), full == tstr(t, c0),
                match node.parent { None => true, Some(p) => p < t.len() },
                pstr(t, node).len() < full.len(),
                pstr(t, node) == full.take(pstr(t, node).len() as int),
                buffer@ == old(buffer)@ + full.skip(pstr(t, node).len() as int).reverse(),
            decreases (match node.parent { None => 0int, Some(p) => p + 1 })
@@ at loop 0 before
        proof {
            let k = pstr(t, node).len() as int;
            assert(full == pstr(t, node).push(node.data));
            assert(full.take(k) =~= pstr(t, node));
            assert(full.skip(k) =~= seq![node.data]);
            assert(buffer@ =~= old(buffer)@ + full.skip(k).reverse());
        }
@@ at loop 0 start
            proof {
                let p = t[code as int];
                tstr_nonempty(t, code as int);
                let k = pstr(t, p).len() as int;
                assert(tstr(t, code as int) == pstr(t, p).push(p.data));
                assert(full.take(k + 1) == pstr(t, p).push(p.data));
                assert(full.take(k) =~= full.take(k + 1).take(k));
                assert(pstr(t, p) =~= full.take(k));
                assert(full[k] == full.take(k + 1)[k]);
                assert((old(buffer)@ + full.skip(k + 1).reverse()).push(p.data) =~= old(buffer)@ + full.skip(k).reverse());
            }
@@ at end
        proof {
            assert(full.skip(0) =~= full);
            assert(buffer@ =~= old(buffer)@ + full);
        }

@@ append
impl vstd::std_specs::ops::AddAssignSpecImpl<u8> for Bits {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, rhs: u8) -> bool { self.0 + rhs <= 255 }
    open spec fn add_assign_spec(&self, rhs: u8) -> &Self { &Bits(if self.0 + rhs < 12 { (self.0 + rhs) as u8 } else { 12 }) }
}
impl vstd::std_specs::convert::FromSpecImpl<u8> for Bits {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u8) -> Self { Bits(if v < 12 { v } else { 12 }) }
}
impl vstd::std_specs::convert::FromSpecImpl<Bits> for u8 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Bits) -> Self { v.0 }
}

impl CNode {
    pub open spec fn link_spec(self, o: Ordering) -> Option<Code> {
        match o { Ordering::Less => self.left, Ordering::Equal => self.next, Ordering::Greater => self.right }
    }
    pub open spec fn leaf(self) -> bool { self.next.is_none() && self.left.is_none() && self.right.is_none() }
}

/// A link of entry i: `next` leads to strings which extend string i by one
/// byte, `left` and `right` to strings which differ only in the last byte
pub open spec fn link_ok(t: Seq<CNode>, d: Seq<Seq<u8>>, i: int, o: Ordering) -> bool {
    match t[i].link_spec(o) {
        None => true,
        Some(c) => i < c < t.len()
            && d[c as int].drop_last() == (if o == Ordering::Equal { d[i] } else { d[i].drop_last() }),
    }
}

/// The tree in the table holds exactly the strings of dictionary d
pub open spec fn linked(t: Seq<CNode>, d: Seq<Seq<u8>>) -> bool {
    &&& t.len() == d.len()
    &&& forall|i: int| 0 <= i < t.len() ==> (#[trigger] d[i]).len() > 0 && d[i].last() == t[i].data
    &&& forall|i: int, o: Ordering| 0 <= i < t.len() ==> #[trigger] link_ok(t, d, i, o)
}

pub open spec fn links_up(t: Seq<CNode>) -> bool {
    forall|i: int, o: Ordering| 0 <= i < t.len() ==> (match #[trigger] t[i].link_spec(o) { None => true, Some(c) => i < c < t.len() })
}

/// What search and insert must achieve, for every dictionary the tree may hold
pub open spec fn insert_post(t0: Seq<CNode>, t1: Seq<CNode>, code: Code, data: u8, r: Option<Code>) -> bool {
    match r {
        Some(c) => c < t0.len() && t1 == t0 && forall|d: Seq<Seq<u8>>| #[trigger] linked(t0, d) ==> d[c as int] == d[code as int].push(data),
        None => forall|d: Seq<Seq<u8>>| #[trigger] linked(t0, d) ==> linked(t1, d.push(d[code as int].push(data))),
    }
}

impl Compressor {
    pub open spec fn pend(self) -> Seq<bool> { bits(self.code as nat, self.n_bits as nat) }
    pub open spec fn wf_bits(self) -> bool {
        &&& 3 <= self.code_bits.0 <= 12
        &&& self.n_bits < 8
        &&& self.code < p2(self.n_bits as nat)
    }
    pub open spec fn is_linked(self) -> bool { exists|d: Seq<Seq<u8>>| linked(self.table@, d) }
    pub open spec fn wf(self) -> bool {
        &&& 2 <= self.min_code_bits <= 8
        &&& self.wf_bits()
        &&& self.is_linked()
    }
    pub open spec fn fresh(self) -> bool {
        &&& linked(self.table@, base_dict(self.min_code_bits as nat))
        &&& self.code_bits.0 == self.min_code_bits + 1
        &&& self.code == 0
        &&& self.n_bits == 0
    }
}

pub proof fn pow_facts(min: nat)
    requires 2 <= min <= 8,
    ensures 4 <= p2(min) <= 256, p2(min + 1) == 2 * p2(min), p2(min) + 3 < 2 * p2(min),
{
    p2_vals();
    if min < 8 { p2_mono(min, 8); }
    if min > 2 { p2_mono(2, min); }
    vstd::arithmetic::power2::lemma_pow2_unfold(min + 1);
}

pub proof fn div_lt(c: nat, a: nat, b: nat)
    requires c < a * b, a > 0,
    ensures c / a < b,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(c as int, a as int);
    let q = c / a;
    assert(q < b) by (nonlinear_arith) requires c < a * b, a > 0, c >= a * q;
}

pub proof fn pow_range(w: nat)
    requires 3 <= w <= 12,
    ensures 8 <= p2(w) <= 4096, w < 12 ==> p2(w + 1) == 2 * p2(w) && p2(w) <= 2048, w == 12 ==> p2(w) == 4096,
{
    p2_vals();
    if w < 12 { p2_mono(w, 12); vstd::arithmetic::power2::lemma_pow2_unfold(w + 1); if w < 11 { p2_mono(w, 11); } }
    if w > 3 { p2_mono(3, w); }
}

// ---- decompressor table

pub open spec fn parents_down(t: Seq<DNode>) -> bool {
    forall|i: int| 0 <= i < t.len() ==> (match (#[trigger] t[i]).parent { None => true, Some(p) => p < i })
}

/// String of table entry i
pub open spec fn tstr(t: Seq<DNode>, i: int) -> Seq<u8>
    decreases i
{
    match t[i].parent {
        Some(p) if 0 <= p < i => tstr(t, p as int).push(t[i].data),
        _ => seq![t[i].data],
    }
}

pub open spec fn pstr(t: Seq<DNode>, n: DNode) -> Seq<u8> {
    match n.parent { None => Seq::empty(), Some(p) => tstr(t, p as int) }
}

pub open spec fn dict_of(t: Seq<DNode>) -> Seq<Seq<u8>> {
    Seq::new(t.len(), |i: int| tstr(t, i))
}

pub proof fn tstr_nonempty(t: Seq<DNode>, i: int)
    requires parents_down(t), 0 <= i < t.len(),
    ensures tstr(t, i).len() > 0, tstr(t, i) == pstr(t, t[i]).push(t[i].data),
        pstr(t, t[i]).len() > 0 ==> tstr(t, i)[0] == pstr(t, t[i])[0],
    decreases i
{
    match t[i].parent {
        Some(p) => { tstr_nonempty(t, p as int); }
        None => { assert(seq![t[i].data] =~= Seq::<u8>::empty().push(t[i].data)); }
    }
}

pub proof fn tstr_push(t: Seq<DNode>, n: DNode, i: int)
    requires parents_down(t), 0 <= i < t.len(),
    ensures tstr(t.push(n), i) == tstr(t, i),
    decreases i
{
    assert(t.push(n)[i] == t[i]);
    match t[i].parent {
        Some(p) => { tstr_push(t, n, p as int); }
        None => {}
    }
}

pub proof fn push_dict(t: Seq<DNode>, n: DNode)
    requires parents_down(t), n.parent.is_some(), n.parent.unwrap() < t.len(),
    ensures
        parents_down(t.push(n)),
        dict_of(t.push(n)) == dict_of(t).push(dict_of(t)[n.parent.unwrap() as int].push(n.data)),
{
    let t1 = t.push(n);
    assert forall|i: int| 0 <= i < t1.len() implies (match (#[trigger] t1[i]).parent { None => true, Some(p) => p < i }) by {
        if i < t.len() { assert(t1[i] == t[i]); }
    }
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] tstr(t1, i) == tstr(t, i) by { tstr_push(t, n, i); }
    assert(tstr(t1, t.len() as int) == tstr(t1, n.parent.unwrap() as int).push(n.data));
    assert(dict_of(t1) =~= dict_of(t).push(dict_of(t)[n.parent.unwrap() as int].push(n.data)));
}

impl Decompressor {
    pub open spec fn pend(self) -> Seq<bool> { bits(self.code as nat, self.n_bits as nat) }
    pub open spec fn wf_bits(self) -> bool {
        &&& 3 <= self.code_bits.0 <= 12
        &&& self.n_bits < 20
        &&& self.code < p2(self.n_bits as nat)
    }
    pub open spec fn st(self) -> LzState {
        LzState {
            min: self.min_code_bits as nat,
            dict: dict_of(self.table@),
            w: self.code_bits.0 as nat,
            prefix: match self.prefix { None => None, Some(p) => Some(p as nat) },
            ended: self.done,
        }
    }
    pub open spec fn wf(self) -> bool {
        &&& self.wf_bits()
        &&& 2 <= self.min_code_bits <= 8
        &&& parents_down(self.table@)
        &&& p2(self.min_code_bits as nat) + 2 <= self.table@.len() <= 4096
        &&& (self.prefix.is_none() ==> self.table@.len() == p2(self.min_code_bits as nat) + 2 && self.code_bits.0 == self.min_code_bits + 1)
        &&& (self.prefix.is_some() ==> self.prefix.unwrap() < self.table@.len())
    }
}

pub proof fn lz_run_stop(st: LzState, bs: Seq<bool>)
    ensures st.ended || bs.len() < st.w ==> lz_run(st, bs) == (LzRes { ok: true, st, out: Seq::empty(), rest: bs }),
{}

impl vstd::std_specs::cmp::PartialEqSpecImpl for Bits {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Bits) -> bool { self.0 == o.0 }
}
// ---- compressor

/// The bytes decode to data, by the decoder of the document
pub open spec fn lz_encodes(min: nat, enc: Seq<u8>, data: Seq<u8>) -> bool {
    let r = lz_run(lz_init(min), bb(enc));
    r.ok && r.out == data && clear_first(min, bb(enc))
}
/// The first code is the clear code
pub open spec fn clear_first(min: nat, bs: Seq<bool>) -> bool { bits(p2(min), min + 1).is_prefix_of(bs) }
pub broadcast proof fn clear_keep(min: nat, a: Seq<bool>, b: Seq<bool>)
    requires clear_first(min, a),
    ensures #[trigger] clear_first(min, a + b),
{ let c = bits(p2(min), min + 1); assert((a + b).take(c.len() as int) =~= a.take(c.len() as int)); }

pub proof fn clear_init(min: nat)
    ensures clear_first(min, bits(p2(min), min + 1)),
{ let c = bits(p2(min), min + 1); assert(c =~= c.take(c.len() as int)); }
/// After a clear code
pub proof fn lz_clear(min: nat, em: Seq<bool>, st: LzState)
    requires 2 <= min <= 8, em.len() == 0, st == lz_init(min),
    ensures
        lz_run(st, em).ok, lz_run(st, em).st == st, lz_run(st, em).rest.len() == 0, lz_run(st, em).out.len() == 0,
        p2(min) < p2(min + 1), lz_code(st, p2(min)) == Some((st, Seq::<u8>::empty())),
{ pow_facts(min); }

pub proof fn linked_len(t: Seq<CNode>, d: Seq<Seq<u8>>)
    requires linked(t, d),
    ensures t.len() == d.len(),
{}

/// The leading clear code
pub proof fn rel_init(min: nat)
    requires 2 <= min <= 8,
    ensures lz_rel(min, bits(p2(min), min + 1), base_dict(min), None, Seq::empty(), min + 1),
{
    let em = Seq::<bool>::empty();
    let c = bits(p2(min), min + 1);
    lz_clear(min, em, lz_init(min));
    pow_facts(min);
    lz_run_step(lz_init(min), em, p2(min), c);
    assert(em + c =~= c);
    clear_init(min);
}

pub proof fn rel_none(min: nat, em: Seq<bool>, gd: Seq<Seq<u8>>, done: Seq<u8>, w: nat)
    requires lz_rel(min, em, gd, None, done, w),
    ensures tail_state(min, em, w, done),
{
    assert(lz_run(lz_init(min), em).out =~= done);
}

/// Relation between what was emitted (em), the dictionary of the compressor
/// (gd), the code in hand and the data consumed (done)
pub open spec fn lz_rel(min: nat, em: Seq<bool>, gd: Seq<Seq<u8>>, code: Option<u16>, done: Seq<u8>, w: nat) -> bool {
    let r = lz_run(lz_init(min), em);
    &&& 2 <= min <= 8
    &&& clear_first(min, em)
    &&& r.ok && !r.st.ended && r.rest.len() == 0 && r.st.w == w && r.st.min == min
    &&& min + 1 <= w <= 12
    &&& p2(min) + 2 <= gd.len() <= p2(w)
    &&& forall|i: int| 0 <= i < gd.len() ==> (#[trigger] gd[i]).len() > 0
    &&& forall|i: int| 0 <= i < p2(min) ==> #[trigger] gd[i] == seq![i as u8]
    &&& gd[p2(min) as int].len() == 1 && gd[p2(min) as int + 1].len() == 1
    &&& match r.st.prefix {
        None => gd == base_dict(min) && r.st.dict == gd && w == min + 1,
        Some(p) => p < r.st.dict.len() && gd.len() == r.st.dict.len() + 1 && r.st.dict == gd.drop_last() && code.is_some()
            && gd.last() == r.st.dict[p as int].push(gd[code.unwrap() as int][0]),
    }
    &&& match code {
        None => done.len() == 0 && r.out.len() == 0 && r.st.prefix.is_none(),
        Some(c) => c < gd.len() && r.out + gd[c as int] == done && (r.st.prefix.is_none() ==> c < p2(min))
            && c != p2(min) && c != p2(min) + 1,
    }
}

pub proof fn rel_bounds(min: nat, em: Seq<bool>, gd: Seq<Seq<u8>>, code: Option<u16>, done: Seq<u8>, w: nat)
    requires lz_rel(min, em, gd, code, done, w),
    ensures
        gd.len() <= 4096, 3 <= w <= 12, p2(w) <= 4096,
        p2(min) + 1 < p2(w),
        4 <= p2(min) <= 256, gd.len() <= p2(w), min + 1 <= w,
        code.is_some() ==> code.unwrap() < gd.len(),
{
    pow_facts(min);
    pow_range(w);
}

/// Data value in hand when there was none
pub proof fn rel_first(min: nat, em: Seq<bool>, gd: Seq<Seq<u8>>, done: Seq<u8>, x: u8, w: nat)
    requires lz_rel(min, em, gd, None, done, w), x < p2(min),
    ensures lz_rel(min, em, gd, Some(x as u16), done.push(x), w),
{
    let r = lz_run(lz_init(min), em);
    assert(gd[x as int] == seq![x]);
    assert(r.out + gd[x as int] =~= done.push(x));
}

/// The string in hand and the next byte are in the dictionary
pub proof fn rel_extend(min: nat, em: Seq<bool>, gd: Seq<Seq<u8>>, c: u16, c2: u16, done: Seq<u8>, x: u8, w: nat)
    requires
        lz_rel(min, em, gd, Some(c), done, w), x < p2(min), c2 < gd.len(),
        gd[c2 as int] == gd[c as int].push(x),
    ensures lz_rel(min, em, gd, Some(c2), done.push(x), w),
{
    let r = lz_run(lz_init(min), em);
    assert(gd[c as int].len() > 0);
    assert(gd[c2 as int].len() > 1);
    assert(r.out + gd[c2 as int] =~= done.push(x));
    pow_facts(min);
    if c2 < p2(min) { assert(gd[c2 as int] == seq![c2 as u8]); }
}

/// What the code in hand means to the decoder
pub proof fn rel_step(min: nat, em: Seq<bool>, gd: Seq<Seq<u8>>, c: u16, done: Seq<u8>, w: nat)
    requires lz_rel(min, em, gd, Some(c), done, w),
    ensures ({
        let st = lz_run(lz_init(min), em).st;
        let r = lz_run(lz_init(min), em + bits(c as nat, w));
        &&& clear_first(min, em + bits(c as nat, w))
        &&& r.ok && r.rest.len() == 0 && !r.st.ended && r.st.min == min
        &&& r.out == done
        &&& r.st.prefix == Some(c as nat)
        &&& r.st.dict == gd
        &&& r.st.w == (if gd.len() == p2(w) && w < 12 { w + 1 } else { w })
    }),
{
    let r0 = lz_run(lz_init(min), em);
    let st = r0.st;
    pow_facts(min);
    pow_range(w);
    assert(c < p2(w));
    match st.prefix {
        None => {
            assert(gd[c as int] == seq![c as u8]);
        }
        Some(p) => {
            let s = lz_string(st, p, c as nat);
            let n = st.dict.len();
            assert(gd[p as int] == st.dict[p as int]);
            assert(gd[p as int].len() > 0);
            if c < n { assert(st.dict[c as int] == gd[c as int]); }
            else {
                assert(c == n);
                assert(gd[c as int] == gd.last());
                assert(gd.last()[0] == st.dict[p as int][0]);
            }
            assert(s == gd[c as int]);
            assert(st.dict.push(st.dict[p as int].push(s[0])) =~= gd);
        }
    }
    lz_run_step(lz_init(min), em, c as nat, bits(c as nat, w));
    clear_keep(min, em, bits(c as nat, w));
}

/// The code in hand is emitted; x starts the next string
pub proof fn rel_emit(min: nat, em: Seq<bool>, gd: Seq<Seq<u8>>, c: u16, done: Seq<u8>, x: u8, w: nat)
    requires lz_rel(min, em, gd, Some(c), done, w), x < p2(min),
    ensures ({
        let em2 = em + bits(c as nat, w);
        let gd2 = gd.push(gd[c as int].push(x));
        let w2 = if gd2.len() > p2(w) && w < 12 { w + 1 } else { w };
        &&& gd2.len() <= p2(w) + 1
        &&& gd2.len() <= 4096 || w == 12
        &&& !(w == 12 && gd2.len() > 4096) ==> lz_rel(min, em2, gd2, Some(x as u16), done.push(x), w2)
        &&& w == 12 && gd2.len() > 4096 ==> {
            let r = lz_run(lz_init(min), em2);
            r.ok && !r.st.ended && r.rest.len() == 0 && r.st.w == 12 && r.st.min == min && r.out == done && clear_first(min, em2)
        }
    }),
{
    rel_step(min, em, gd, c, done, w);
    pow_facts(min);
    pow_range(w);
    let em2 = em + bits(c as nat, w);
    let gd2 = gd.push(gd[c as int].push(x));
    let r = lz_run(lz_init(min), em2);
    assert(gd2.drop_last() =~= gd);
    assert(gd2[x as int] == gd[x as int]);
    assert(gd[x as int] == seq![x]);
    assert(r.out + gd2[x as int] =~= done.push(x));
    assert forall|i: int| 0 <= i < gd2.len() implies (#[trigger] gd2[i]).len() > 0 by {
        if i < gd.len() { assert(gd[i].len() > 0); }
    }
    assert forall|i: int| 0 <= i < p2(min) implies #[trigger] gd2[i] == seq![i as u8] by { assert(gd[i] == seq![i as u8]); }
}

/// Clear code when the table is full; x starts the next string
pub proof fn rel_clear(min: nat, em: Seq<bool>, gd: Seq<Seq<u8>>, done: Seq<u8>, x: u8)
    requires
        2 <= min <= 8, x < p2(min),
        ({ let r = lz_run(lz_init(min), em); r.ok && !r.st.ended && r.rest.len() == 0 && r.st.w == 12 && r.st.min == min && r.out == done && clear_first(min, em) }),
    ensures lz_rel(min, em + bits(p2(min), 12), base_dict(min), Some(x as u16), done.push(x), min + 1),
{
    pow_facts(min);
    p2_vals();
    lz_run_step(lz_init(min), em, p2(min), bits(p2(min), 12));
    clear_keep(min, em, bits(p2(min), 12));
    let r = lz_run(lz_init(min), em + bits(p2(min), 12));
    let gd = base_dict(min);
    assert(gd[x as int] == seq![x]);
    assert(r.out =~= done);
    assert(r.out + gd[x as int] =~= done.push(x));
}

/// The last code
pub proof fn rel_last(min: nat, em: Seq<bool>, gd: Seq<Seq<u8>>, c: u16, done: Seq<u8>, w: nat)
    requires lz_rel(min, em, gd, Some(c), done, w),
    ensures tail_state(min, em + bits(c as nat, w), w, done),
{ rel_step(min, em, gd, c, done, w); }

/// All data codes have been read
pub open spec fn tail_state(min: nat, em: Seq<bool>, w: nat, data: Seq<u8>) -> bool {
    let r = lz_run(lz_init(min), em);
    clear_first(min, em) && r.ok && r.rest.len() == 0 && !r.st.ended && r.st.min == min && r.out == data && (r.st.w == w || r.st.w == w + 1)
}

/// End code followed by at least one zero bit
pub proof fn end_padded(min: nat, em: Seq<bool>, w: nat, pad: nat, data: Seq<u8>)
    requires tail_state(min, em, w, data), 1 <= pad, 3 <= w <= 12, 2 <= min <= 8, min + 1 <= w,
    ensures ({ let r = lz_run(lz_init(min), em + bits(p2(min) + 1, w) + bits(0, pad)); r.ok && r.out == data && r.st.ended }),
        clear_first(min, em + bits(p2(min) + 1, w) + bits(0, pad)),
{
    let e = bits(p2(min) + 1, w);
    let z = bits(0, pad);
    let r = lz_run(lz_init(min), em);
    let t = e + z;
    pow_facts(min);
    pow_range(w);
    if min + 1 < w { p2_mono(min + 1, w); }
    assert(em + e + z =~= em + t);
    clear_keep(min, em, t);
    lz_run_cat(lz_init(min), em, t);
    assert(r.rest + t =~= t);
    bits_len(p2(min) + 1, w);
    bits_len(0, pad);
    let w2 = r.st.w;
    bits_join(p2(min) + 1, w, 0, 1);
    assert(p2(min) + 1 + 0 * p2(w) == p2(min) + 1) by (nonlinear_arith);
    bits_len(0, 1);
    assert(t.take(w2 as int) =~= bits(p2(min) + 1, w2)) by {
        if w2 == w + 1 {
            assert(bits(0, pad)[0] == bits(0, 1)[0]) ;
            assert(t.take(w2 as int) =~= e + bits(0, 1));
        } else {
            assert(t.take(w2 as int) =~= e);
        }
    }
    if w < w2 { p2_mono(w, w2); }
    val_bits(p2(min) + 1, w2);
    let st2 = LzState { ended: true, ..r.st };
    assert(lz_code(r.st, p2(min) + 1) == Some((st2, Seq::<u8>::empty())));
    let r2 = lz_run(r.st, t);
    assert(lz_run(st2, t.skip(w2 as int)).out.len() == 0);
    assert(r2.out =~= Seq::empty());
    assert(r.out + r2.out =~= data);
}

/// End code with its last n bits missing
pub proof fn end_cut(min: nat, em: Seq<bool>, w: nat, n: nat, s: Seq<bool>, data: Seq<u8>)
    requires
        tail_state(min, em, w, data), n <= w, 3 <= w <= 12, 2 <= min <= 8, min + 1 <= w,
        exists|p: Seq<bool>| p.len() == n && #[trigger] (s + p) == em + bits(p2(min) + 1, w),
    ensures ({ let r = lz_run(lz_init(min), s); r.ok && r.out == data }),
        clear_first(min, s),
{
    let e = bits(p2(min) + 1, w);
    let p = choose|p: Seq<bool>| p.len() == n && #[trigger] (s + p) == em + e;
    bits_len(p2(min) + 1, w);
    let r = lz_run(lz_init(min), em);
    let t = e.take(w - n);
    assert((s + p).len() == s.len() + n);
    assert((em + e).len() == em.len() + w);
    assert(s =~= em + t) by {
        assert((s + p).take(s.len() as int) =~= s);
        assert((em + e).take(s.len() as int) =~= em + t);
    }
    clear_keep(min, em, t);
    lz_run_cat(lz_init(min), em, t);
    assert(r.rest + t =~= t);
    pow_facts(min);
    pow_range(w);
    if min + 1 < w { p2_mono(min + 1, w); }
    let r2 = lz_run(r.st, t);
    assert(r2.ok && r2.out =~= Seq::<u8>::empty()) by {
        if t.len() >= r.st.w {
            assert(n == 0 && r.st.w == w);
            assert(t =~= e);
            assert(t.take(w as int) =~= e);
            val_bits(p2(min) + 1, w);
            let st2 = LzState { ended: true, ..r.st };
            assert(lz_code(r.st, p2(min) + 1) == Some((st2, Seq::<u8>::empty())));
            assert(lz_run(st2, t.skip(w as int)).out.len() == 0);
        }
    }
    assert(r.out + r2.out =~= data);
}
