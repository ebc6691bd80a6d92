//@into src/topology.rs
// A topology without any segments (used where the construction is replaced by its contract).
pub fn empty() -> Topology<BinaryWindingNumber> {
    Topology {
        eps: 1.0,
        tag: Default::default(),
        open_segs: Default::default(),
        winding: Default::default(),
        points: Default::default(),
        point_idx: Default::default(),
        point_neighbors: Default::default(),
        deleted: Default::default(),
        scan_west: Default::default(),
        scan_east: Default::default(),
        scan_after: Default::default(),
        orig_seg: Default::default(),
        segments: Default::default(),
        positively_oriented: Default::default(),
    }
}

#[cfg(kani)]
impl<W: WindingNumber> Topology<W> {
    // Stands for `contours`: asks for the one pair of winding numbers in CASE.
    fn vx_contours(&self, inside: impl Fn(&W) -> bool) -> Contours {
        let (a, b, want, _) = unsafe { crate::vx_truth::CASE };
        let w = BinaryWindingNumber { shape_a: a, shape_b: b };
        // (only used with W = BinaryWindingNumber)
        let got = inside(unsafe { &*(&w as *const BinaryWindingNumber as *const W) });
        assert!(got == want, "a region belongs to the result exactly if the operation says so");
        unsafe { crate::vx_truth::CASE.3 = true };
        Contours::default()
    }
}
