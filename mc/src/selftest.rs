//! Shows what the interposed calls see, and that nothing is missed.
use crate::sys::World;
use crate::util::*;
use zarr::prelude::*;
use zarr::storage::*;

pub fn trace() {
    let d = Dir::new();
    let w = World::new(vec![]);
    w.run(|| {
        let h = d.create();
        let m = M::new(&[4], &[2], "<u2").build();
        h.create_array("a/b", &m).unwrap();
        u16::wr(&h, "a/b", &m, &[0], &[1, 2]).unwrap();
        let _ = u16::rd(&h, "a/b", &m, &[0]).unwrap();
        let _ = h.list_nodes("");
        let _ = h.get_array_metadata("a/b");
        let _ = h.set_attribute("a/b", "k".into(), 1);
        let _ = h.delete_chunk("a/b", &m, &[0]);
        u16::wr(&h, "a/b", &m, &[0], &[1, 2]).unwrap();
        let _ = h.remove("a");
        let mut v = vec![];
        if let Ok(Some(mut r)) = ReadableStore::get(&h, "zarr.json") {
            std::io::Read::read_to_end(&mut r, &mut v).unwrap();
        }
    });
    println!("{}", w.trace().replace(' ', "\n"));
}
