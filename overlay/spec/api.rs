//@ [C05]
// ---- a well-formed stream is balanced ----
pub proof fn lemma_simulates(ops: Seq<Op>, src: Seq<u8>)
    requires run(ops, Some(seq![Fr { n: None, s: 0 }])) is Some,
    ensures
        g_run(ops, src) is Some,
        g_run(ops, src)->Some_0.len() == run(ops, Some(seq![Fr { n: None, s: 0 }]))->Some_0.len(),
        g_run(ops, src)->Some_0.len() >= 1,
        g_run(ops, src)->Some_0[0].n is None,
        forall|i: int| 0 <= i < g_run(ops, src)->Some_0.len() ==> (#[trigger] g_run(ops, src)->Some_0[i]).n == run(ops, Some(seq![Fr { n: None, s: 0 }]))->Some_0[i].n,
    decreases ops.len(),
{
    let c: Cfg = Some(seq![Fr { n: None, s: 0 }]);
    if ops.len() > 0 {
        let (a, x) = (ops.drop_last(), ops.last());
        assert(run(a, c) is Some);
        lemma_simulates(a, src);
        let (k, g) = (run(a, c)->Some_0, g_run(a, src)->Some_0);
        let (k2, g2) = (run(ops, c), g_run(ops, src));
        assert(k.last() == k[k.len() - 1] && g.last() == g[g.len() - 1]);
        assert(k2 is Some);
        if x.kind is End {
            assert(g[0].n == k[0].n);
            assert(k.len() >= 2);
            assert(g.last().n == k.last().n);
        }
        assert(g2 is Some);
        assert forall|i: int| 0 <= i < g2->Some_0.len() implies (#[trigger] g2->Some_0[i]).n == k2->Some_0[i].n by {
            if i < g.len() { assert(g[i].n == k[i].n); }
        }
    }
}
pub proof fn lemma_well_formed_balanced(ops: Seq<Op>, src: Seq<u8>)
    requires well_formed(ops),
    ensures balanced(ops, src),
{ lemma_simulates(ops, src); }
pub proof fn lemma_balanced_if(src: Seq<u8>)
    ensures forall|ops: Seq<Op>| #[trigger] well_formed(ops) ==> balanced(ops, src),
{ assert forall|ops: Seq<Op>| #[trigger] well_formed(ops) implies balanced(ops, src) by { lemma_well_formed_balanced(ops, src); } }
//@end
