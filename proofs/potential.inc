/// contract of the Potential trait: after init(target), potential(node) answers towards that target - whatever was asked before
trait Potential: Sized {
    spec fn pre(&self) -> bool;
    spec fn has(&self, node: int) -> bool;
    spec fn after(&self, target: int) -> bool;
    spec fn says(&self, target: int, node: int, r: Option<u32>) -> bool;
    fn init(&mut self, target: NodeId)
        requires old(self).pre(), old(self).has(target as int)
        ensures final(self).pre(), final(self).after(target as int), forall|v: int| #[trigger] final(self).has(v) == old(self).has(v), forall|t: int, v: int, r: Option<u32>| #[trigger] final(self).says(t, v, r) == old(self).says(t, v, r);
    fn potential(&mut self, node: NodeId, Ghost(t): Ghost<int>) -> (r: Option<u32>)
        requires old(self).pre(), old(self).has(node as int), old(self).after(t), old(self).has(t)
        ensures final(self).pre(), final(self).after(t), old(self).says(t, node as int, r), forall|v: int| #[trigger] final(self).has(v) == old(self).has(v), forall|t: int, v: int, r: Option<u32>| #[trigger] final(self).says(t, v, r) == old(self).says(t, v, r);
}
