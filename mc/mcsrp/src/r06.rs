//! R06: the built-in groups.
use crate::grp::builtin;
use crate::refm::B;
use mccore::{ensure, hex, Ctx};

fn arctan_inv(x: u32, one: &B) -> B {
    // floor-ish of one * arctan(1/x), alternating series
    let x2 = B::from(x) * B::from(x);
    let mut t = one / x;
    let (mut pos, mut neg) = (B::default(), B::default());
    let mut k = 0u32;
    while t != B::default() {
        let term = &t / (2 * k + 1);
        if k % 2 == 0 {
            pos += term
        } else {
            neg += term
        }
        t /= &x2;
        k += 1;
    }
    pos - neg
}
/// floor(2^bits * pi)
fn pi(bits: u64) -> B {
    let guard = 128u64;
    let one = B::from(1u8) << (bits + guard);
    let p = (arctan_inv(5, &one) * 16u32) - (arctan_inv(239, &one) * 4u32);
    p >> guard
}
fn modp(n: u64, c: u64) -> B {
    let two = |e: u64| B::from(1u8) << e;
    two(n) - two(n - 64) - 1u8 + two(64) * (pi(n - 130) + c)
}
const N1024: &str = "eeaf0ab9adb38dd69c33f80afa8fc5e86072618775ff3c0b9ea2314c9c256576d674df7496ea81d3383b4813d692c6e0e0d5d8e250b98be48e495c1d6089dad15dc7d7b46154d6b6ce8ef4ad69b15d4982559b297bcf1885c529f566660e57ec68edbc3c05726cc02fd4cbf4976eaa9afd5138fe8376435b9fc61d2fc0eb06e3";
const N1536: &str = "9def3cafb939277ab1f12a8617a47bbbdba51df499ac4c80beeea9614b19cc4d5f4f5f556e27cbde51c6a94be4607a291558903ba0d0f84380b655bb9a22e8dcdf028a7cec67f0d08134b1c8b97989149b609e0be3bab63d47548381dbc5b1fc764e3f4b53dd9da1158bfd3e2b9c8cf56edf019539349627db2fd53d24b7c48665772e437d6c7f8ce442734af7ccb7ae837c264ae3a9beb87f8a2fe9b8b5292e5a021fff5e91479e8ce7a28c2442c6f315180f93499a234dcf76e3fed135f9bb";
const N2048: &str = "ac6bdb41324a9a9bf166de5e1389582faf72b6651987ee07fc3192943db56050a37329cbb4a099ed8193e0757767a13dd52312ab4b03310dcd7f48a9da04fd50e8083969edb767b0cf6095179a163ab3661a05fbd5faaae82918a9962f0b93b855f97993ec975eeaa80d740adbf4ff747359d041d5c33ea71d281e446b14773bca97b43a23fb801676bd207a436c6481f1d2b9078717461a5b9d32e688f87748544523b524b0d57d5ea77a2775d2ecfa032cfbdbf52fb3786160279004e57ae6af874e7303ce53299ccc041c7bc308d82a5698f3a8d0c38271ae35f8e9dbfbb694b5c803d89f7ae435de236d525f54759b65e372fcd68ef20fa7111f9e4aff73";

fn mr(n: &B, base: u32) -> bool {
    let one = B::from(1u8);
    let m = n - &one;
    let s = m.trailing_zeros().unwrap_or(0);
    let d = &m >> s;
    let mut x = B::from(base).modpow(&d, n);
    if x == one || x == m {
        return true;
    }
    for _ in 1..s {
        x = &x * &x % n;
        if x == m {
            return true;
        }
    }
    false
}

pub fn run(ctx: &Ctx) {
    ctx.bound("all seven built-in groups, read in every order of first use within this process; modulus bit by bit against RFC 5054 (3072 bits and above recomputed from the digits of pi as RFC 3526 defines them); Miller-Rabin to several bases for N and (N-1)/2");
    let want: Vec<(B, u32)> = vec![
        (B::parse_bytes(N1024.as_bytes(), 16).unwrap_or_default(), 2),
        (B::parse_bytes(N1536.as_bytes(), 16).unwrap_or_default(), 2),
        (B::parse_bytes(N2048.as_bytes(), 16).unwrap_or_default(), 2),
        (modp(3072, 1690314), 5),
        (modp(4096, 240904), 5),
        (modp(6144, 929484), 5),
        (modp(8192, 4743158), 19),
    ];
    let gs = builtin();
    ctx.par("constants", 7, |w, j| {
        w.case(gs[j].0, |st| {
            let (name, bits, g) = (gs[j].0, gs[j].1, gs[j].2);
            ensure!(g.n.bits() == bits as u64, "{name}: modulus of {} bits", g.n.bits());
            if g.n != want[j].0 {
                let (a, b) = (g.n.to_bytes_be(), want[j].0.to_bytes_be());
                let p = (0..a.len().min(b.len())).find(|i| a[*i] != b[*i]);
                return Err(mccore::Fail::from(format!("{name}: modulus differs from RFC 5054, first at byte {p:?}: {}", p.map(|p| hex(&a[p..(p + 4).min(a.len())])).unwrap_or_default())));
            }
            ensure!(g.g == B::from(want[j].1), "{name}: generator {} instead of {}", g.g, want[j].1);
            for byte in g.n.to_bytes_be() {
                st.state(&(j, byte));
                st.step();
            }
            st.trace();
            Ok(())
        });
    });
    let bases = [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37];
    let mut jobs: Vec<(usize, usize, u32)> = vec![];
    for j in (0..7).rev() {
        let nb = ctx.t([12usize, 12, 12, 12, 8, 4, 3], [12; 7])[j];
        for k in 0..=nb {
            if k == 0 {
                jobs.push((j, 2, 0));
            } else {
                jobs.push((j, 0, bases[k - 1]));
                jobs.push((j, 1, bases[k - 1]));
            }
        }
    }
    ctx.par("safe prime", jobs.len(), |w, i| {
        let (j, kind, base) = jobs[i];
        w.case(&format!("{}/{kind}/{base}", gs[j].0), |st| {
            let g = gs[j].2;
            let q = (&g.n - 1u8) >> 1u32;
            match kind {
                0 => ensure!(mr(&g.n, base), "{}: modulus is composite", gs[j].0),
                1 => ensure!(mr(&q, base), "{}: (N-1)/2 is composite", gs[j].0),
                _ => {
                    let r = g.g.modpow(&q, &g.n);
                    let one = B::from(1u8);
                    ensure!(r == one || r == &g.n - 1u8, "{}: generator has neither order q nor 2q", gs[j].0);
                    ensure!(g.g > one && g.g < &g.n - 1u8, "{}: trivial generator", gs[j].0);
                }
            }
            st.state(&(j, kind, base));
            st.step();
            st.trace();
            Ok(())
        });
    });
}
