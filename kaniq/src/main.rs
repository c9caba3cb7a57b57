use std::panic::catch_unwind;
/// `replay run NAME b,b,… b,b,…`: run one harness on given values.
/// `replay fuzz SEED N NAME…`: run harnesses on N sampled inputs each (a bounded stand-in).
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "run" => {
            let vals = a[3..].iter().map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect()).collect();
            vq::replay(&a[2], &mut vq::Bytes(vals));
            println!("holds");
        }
        "fuzz" => {
            std::panic::set_hook(Box::new(|_| {}));
            let seed: u64 = a[2].parse().unwrap();
            let n: usize = a[3].parse().unwrap();
            for name in &a[4..] {
                let mut met = 0;
                let mut bad = None;
                for i in 0..n {
                    let mut f = vq::Sampled::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (i as u64).wrapping_mul(0xD1B54A32D192ED03));
                    let r = catch_unwind(std::panic::AssertUnwindSafe(|| vq::replay(name, &mut f)));
                    match r {
                        Ok(()) => met += 1,
                        Err(e) if e.is::<vq::Skip>() => {}
                        Err(e) => {
                            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            bad = Some((m, f.log.clone()));
                            break;
                        }
                    }
                }
                let (m, log) = bad.clone().unwrap_or_default();
                let q = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n"));
                println!("{{\"harness\":{},\"met\":{},\"failed\":{},\"message\":{},\"values\":{:?}}}", q(name), met, bad.is_some(), q(&m), log);
            }
        }
        #[cfg(feature = "real")]
        "history" => vq::history::explore(a[2].parse().unwrap(), a[3].parse().unwrap()),
        x => panic!("{x}"),
    }
}
