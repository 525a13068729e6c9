//! Independent implementation of the ROOT file format (reader and writer).
//!
//! Nothing in here uses oxyroot: it is the reference model the checks compare with.
pub mod comp;
pub mod read;
pub mod write;

/// Print what the reference parser finds in files (debugging aid).
pub fn dump(files: &[String]) {
    for p in files {
        match read::RFile::open(p) {
            Err(e) => println!("{p}: ERR {e}"),
            Ok(f) => {
                println!("{p}: {} recs {} gaps {} infos", f.recs.len(), f.gaps.len(), f.infos.list.len());
                if std::env::var("I").is_ok() {
                    for i in &f.infos.list {
                        print!("{};{} ", i.name, i.vers);
                    }
                    println!();
                }
                for k in &f.keys {
                    print!("  key {} {};{} ", k.class, k.name, k.cycle);
                    if std::env::var("OBJ").is_ok() {
                        if let Ok((o, _)) = f.object(k) {
                            print_branches(&o, 1);
                        }
                        continue;
                    }
                    if k.class == "TTree" || k.class == "TNtuple" {
                        match f.tree(k) {
                            Ok(t) => {
                                println!("tree {} entries {} branches ok={}", t.entries, t.branches.len(), t.leaf_addrs_ok);
                                for b in &t.branches {
                                    println!(
                                        "      {} {:?} class {:?} leaf {} len {} lt {} entries {} baskets {} data {:02x?}",
                                        b.name,
                                        b.title,
                                        b.class_name,
                                        b.leaf_class,
                                        b.leaf_len,
                                        b.leaf_lentype,
                                        b.entries,
                                        b.nbaskets,
                                        b.data.iter().take(3).collect::<Vec<_>>()
                                    )
                                }
                            }
                            Err(e) => println!("ERR {e}"),
                        }
                    } else {
                        println!("{:?}", f.object(k).map(|_| ()))
                    }
                }
            }
        }
    }
}

fn print_branches(o: &read::Obj, d: usize) {
    for b in o.objarr("fBranches").unwrap_or_default().into_iter().flatten() {
        println!("{:w$}- {} {}", "", b.class, b.string("fName").unwrap_or_default(), w = d * 2);
        for (k, v) in &b.fields {
            match v {
                read::V::Arr(a) => println!("{:w$}    {k} = {:?}", "", a.iter().take(4).collect::<Vec<_>>(), w = d * 2),
                read::V::Obj(x) if k == "fLeaves" => {
                    for l in x.items.iter().filter_map(|l| l.obj()) {
                        println!("{:w$}    leaf {} {:?}", "", l.class, l.fields, w = d * 2)
                    }
                }
                read::V::Obj(x) if k == "fBaskets" => println!("{:w$}    baskets {:?}", "", x.items.iter().map(|i| i.obj().map(|o| o.fields.clone())).collect::<Vec<_>>(), w = d * 2),
                read::V::Obj(_) if k == "fBranches" => {}
                v => println!("{:w$}    {k} = {v:?}", "", w = d * 2),
            }
        }
        print_branches(&b, d + 1);
    }
}
