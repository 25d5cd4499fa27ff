use crate::sym::*;
use twiggy_ir::*;
use twiggy_traits::*;
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_smoke() {
    let mut b = ItemsBuilder::new(1000);
    let n = param("n", 3) as usize;
    let mut ids = vec![];
    let mut sizes = vec![];
    for i in 0..n {
        let s = u32_in("size", 1, 100000);
        sizes.push(s);
        ids.push(b.add_item(Item::new(Id::entry(1, i), format!("item{}", i), s, Misc::new())));
    }
    let mut it = b.finish();
    let mut o = twiggy_opt::Top::new();
    o.set_max_items(2);
    let t = twiggy_analyze::top(&mut it, &o).unwrap();
    let mut out = vec![];
    t.emit(&it, &mut out, OutputFormat::Text).unwrap();
    println!("{}", String::from_utf8(out).unwrap());
    reach("end");
    check(sizes[0] < 5000, "size small");
}
