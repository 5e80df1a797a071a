//! Generator of grammars and modules.
use simcore::prng::Rng;
use simcore::sexp::parse;
use simcore::{earley, emit, gen, lr, model::Model, plangen, spec::Spec};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let num = |i: usize| args[i].parse::<u64>().unwrap();
    match args[1].as_str() {
        // gen PROP SEED FROM COUNT THOROUGH OUTDIR BIG,KINDS
        "gen" => {
            let mut v = gen::batch(&args[2], num(3), num(4) as usize, num(5) as usize, num(6) == 1);
            let kinds: Vec<usize> = args[8].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            v.extend(gen::big_batch(num(3), &kinds));
            write(&v, &args[7]);
        }
        // emit REPLAYFILE OUTDIR
        "emit" => {
            let s = parse(&std::fs::read_to_string(&args[2]).unwrap());
            let mut v: Vec<Spec> = s.all("grammar").map(Spec::from_s).collect();
            for (i, sp) in v.iter_mut().enumerate() {
                sp.id = format!("r{i}")
            }
            write(&v, &args[3]);
        }
        // root OUTDIR NAMES...
        "root" => std::fs::write(format!("{}/main.rs", args[2]), emit::root(&args[3..])).unwrap(),
        // input REPLAYFILE: the macro inputs, for reading
        "input" => {
            let s = parse(&std::fs::read_to_string(&args[2]).unwrap());
            for g in s.all("grammar") {
                println!("{}", emit::macro_input(&Spec::from_s(g)))
            }
        }
        // inputs SEED COUNT OUTFILE: macro inputs only, in families of four, separated by lines of dashes
        "inputs" => {
            let mut t = vec![];
            for i in 0..num(3) as usize {
                let mut rng = Rng::new(simcore::prng::mix(num(2), 0x10_000 + i as u64));
                let want = if rng.chance(1, 5) { gen::Want::Sr } else { gen::Want::Free };
                let b = if i % 12 == 5 { gen::middling(&mut rng) } else { gen::bnf(i + 7 * num(2) as usize, want, 70, &mut rng) };
                let sp = gen::decorate(format!("f{i}"), &b, gen::Style::Mixed, &mut rng);
                let text = emit::macro_input(&sp);
                t.push(text.clone());
                t.push(emit::macro_input(&gen::twin(&sp, &mut rng)));
                t.push(emit::macro_input(&gen::twin(&sp, &mut rng)));
                t.push(gen::damage(&text, &mut rng));
            }
            std::fs::write(&args[4], t.join("----\n")).unwrap();
        }
        // verdicts PROP SEED COUNT OUTFILE: macro inputs as well, and in OUTFILE.verdicts whether each must be accepted
        "verdicts" => {
            let (mut t, mut l) = (vec![], String::new());
            for i in 0..num(4) as usize {
                let mut rng = Rng::new(simcore::prng::mix(num(3), 0x20_000 + i as u64));
                let k = i + (num(3) % 1000) as usize * num(4) as usize;
                for (text, v) in if args[2] == "C13" { gen::conflict_family(k, &mut rng) } else { gen::flaw_family(k, &mut rng) } {
                    t.push(text);
                    l.push_str(match v {
                        Some(true) => "accept\n",
                        Some(false) => "reject\n",
                        None => "open\n",
                    })
                }
            }
            std::fs::write(&args[5], t.join("----\n")).unwrap();
            std::fs::write(format!("{}.verdicts", args[5]), l).unwrap();
        }
        // xcheck SEED COUNT: the two halves of the reference model against each other
        "xcheck" => xcheck(num(2), num(3)),
        x => panic!("mode {x}"),
    }
}

fn write(v: &[Spec], dir: &str) {
    std::fs::create_dir_all(dir).unwrap();
    let mut names = vec![];
    for sp in v {
        // what is written must read back the same
        assert_eq!(Spec::from_text(&sp.to_text()).to_text(), sp.to_text());
        std::fs::write(format!("{dir}/{}.rs", sp.id), emit::module(sp)).unwrap();
        names.push(sp.id.clone());
    }
    std::fs::write(format!("{dir}/main.rs"), emit::root(&names)).unwrap();
    let free: Vec<&str> =
        v.iter().filter(|s| Model::new((*s).clone()).conflict_free()).map(|s| s.id.as_str()).collect();
    std::fs::write(format!("{dir}/free"), free.join("\n")).unwrap();
}

fn xcheck(seed: u64, count: u64) {
    let mut words = 0u64;
    let mut accepted = 0u64;
    for i in 0..count {
        let mut rng = Rng::new(simcore::prng::mix(seed, 0xE ^ (i << 8)));
        let b = gen::bnf(i as usize, gen::Want::Free, 80, &mut rng);
        let sp = gen::decorate(format!("x{i}"), &b, gen::Style::Mixed, &mut rng);
        let m = Model::new(sp);
        for e in m.spec.entries() {
            let tab = &m.tables[&e];
            for _ in 0..12 {
                let n = rng.range(1, 12);
                let mut w = plangen::sentence(&m, e, &mut rng, n);
                w.truncate(60);
                if rng.chance(2, 3) && m.g.n_t > 0 {
                    for _ in 0..rng.range(1, 2) {
                        let k = rng.below(w.len() + 1);
                        match rng.below(3) {
                            0 => w.insert(k, rng.below(m.g.n_t)),
                            1 if k < w.len() => {
                                w.remove(k);
                            }
                            _ if k < w.len() => w[k] = rng.below(m.g.n_t),
                            _ => {}
                        }
                    }
                }
                let v = tab.run(&m.g, &w, |_, _| {}, |_| {});
                let ea = earley::run(&m.g, e, &w);
                words += 1;
                let bad = match v {
                    lr::Verdict::Accept => {
                        accepted += 1;
                        ea.viable != w.len() || !ea.complete[w.len()]
                    }
                    lr::Verdict::Error(p, s) => {
                        let exp: std::collections::HashSet<usize> = tab.expected(&m.g, s).into_iter().collect();
                        p != ea.viable || (p == w.len() && ea.complete[p]) || exp != ea.next[p]
                    }
                    lr::Verdict::Loop => true,
                };
                if bad {
                    println!("MISMATCH {v:?} viable {} {}\n{}", ea.viable, w.len(), m.spec.to_text());
                    std::process::exit(2);
                }
            }
        }
    }
    println!("{{\"grammars\": {count}, \"words\": {words}, \"sentences\": {accepted}}}");
}
