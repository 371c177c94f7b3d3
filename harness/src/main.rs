mod cases;
mod el;
mod gen;
mod long;
mod ord;
mod rope;
mod scale;
mod slice;
mod tree;
mod util;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String {
        a.iter()
            .position(|x| x == k)
            .and_then(|i| a.get(i + 1).cloned())
            .unwrap_or(d.to_string())
    };
    let num = |k: &str, d: u64| -> u64 { get(k, &d.to_string()).parse().unwrap() };
    let out = get("--out", "/dev/null");
    util::open(&out);
    if a.iter().any(|x| x == "--sync") {
        util::sync_to(&format!("{}.pending", out));
    }
    let seed = num("--seed", 1);
    let steps = num("--steps", 1000) as usize;
    // this part's lines of a file of cases
    let lines = || -> Vec<Vec<i64>> {
        let (part, parts) = (num("--part", 0) as usize, num("--parts", 1) as usize);
        std::fs::read_to_string(get("--cases", ""))
            .unwrap()
            .lines()
            .enumerate()
            .filter(|(i, _)| i % parts == part)
            .map(|(_, l)| util::numbers(l))
            .collect()
    };
    match a.get(1).map(|s| s.as_str()) {
        Some("tree") => gen::run(seed, &get("--profile", "C22"), steps, a.iter().any(|x| x == "--deep")),
        Some("map") => ord::run(seed, &get("--kind", "both"), steps),
        Some("rope") => rope::run(seed, steps),
        Some("slice") => slice::random(seed, steps),
        Some("scale") => scale::run(seed, steps, num("--size", 40_000) as usize),
        Some("rope-long") => long::rope(seed, steps, num("--size", 100_000) as usize),
        Some("map-long") => long::map(seed, &get("--kind", "both"), steps, num("--size", 30_000) as usize),
        Some("gap") => slice::gaps(seed, steps),
        // histories the specification made
        Some("tree-cases") => cases::replay(&cases::Args {
            file: &get("--cases", ""),
            kind: &get("--type", "diff"),
            queries: &get("--queries", ""),
            both: a.iter().any(|x| x == "--both"),
            part: num("--part", 0) as usize,
            parts: num("--parts", 1) as usize,
        }),
        Some("map-cases") => ord::replay(&lines(), &get("--kind", "map")),
        Some("rope-cases") => rope::replay(&lines()),
        Some("slice-cases") => slice::replay(&lines()),
        _ => {
            eprintln!("usage: gbtv tree|map|rope|slice|gap|.. --profile P --seed N --steps N --out FILE [--sync]");
            std::process::exit(2);
        }
    }
    util::finish();
}
