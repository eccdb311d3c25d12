=== mod hop
#[allow(unused_imports)] use crate::command::r#impl::Set;
=== impl hop::Hop
    pub open spec fn st(&self) -> Map<Seq<u8>, ValueV> { self.0.state@ }
    /// The rest of the engine is as it was.
    pub open spec fn same_rest(&self, o: &Hop) -> bool {
        self.0.config == o.0.config && self.0.metrics == o.0.metrics && self.0.metrics_writer == o.0.metrics_writer
            && self.0.pubsub == o.0.pubsub && self.0.sessions == o.0.sessions
    }
=== fn hop::Hop::state
    ensures *ret == old(self).0.state, final(self).0.state == *final(ret), final(self).same_rest(old(self)),
=== fn hop::Hop::metrics
    ensures ret.counts() == self.0.metrics.counts(),
=== fn hop::HopRef::Default::default
    ensures
        ret.state@ == Map::<Seq<u8>, ValueV>::empty(), ret.metrics.counts() == Map::<Metric, u64>::empty(),
        ret.metrics_writer.id() == ret.metrics.id(), ret.sessions.0.metrics_writer.id() == ret.metrics.id(),
        ret.sessions.wf(), ret.pubsub.wf(),
=== fn hop::Hop::Default::default
    ensures ret.fresh(),
=== fn hop::Hop::new
    ensures ret.fresh(),
=== fn hop::Builder::build
    ensures ret.fresh(),
=== fn hop::Hop::From<Builder>::from
    ensures ret.fresh(),
=== impl hop::Hop
    /// A new engine: nothing stored, and commands and sessions are counted by its metrics.
    pub open spec fn fresh(&self) -> bool {
        &&& self.st() == Map::<Seq<u8>, ValueV>::empty() 
        &&& self.0.metrics.counts() == Map::<Metric, u64>::empty()
        &&& self.wf()
        &&& self.0.sessions.wf() && self.0.pubsub.wf()
    }
    pub open spec fn wf(&self) -> bool {
        self.0.metrics_writer.id() == self.0.metrics.id() && self.0.sessions.0.metrics_writer.id() == self.0.metrics.id()
    }
