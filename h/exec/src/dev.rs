//! Development entry points: run one file through the engines by hand.
use logicaffeine_compile::compile::*;
use logicaffeine_compile::optimization::Tier;

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = || std::fs::read_to_string(&a[2]).unwrap();
    match a[1].as_str() {
        "lines" => {
            // each line alone, in the tree-walker
            for l in src().lines() {
                let o = tw_outcome(&format!("## Main\n{}\n", l.replace("\\n", "\n")));
                println!("{l}   => {:?} {}", o.output, o.error.map(|e| e.chars().take(90).collect::<String>()).unwrap_or_default());
            }
        }
        "rust" => println!("{}", compile_to_rust(&src()).map_err(|e| format!("{e:?}")).unwrap_or_else(|e| e)),
        "c" => println!("{}", compile_to_c(&src()).map_err(|e| format!("{e:?}")).unwrap_or_else(|e| e)),
        "run" => {
            let src = src();
            let tier = logicaffeine_jit::install();
            let sh = |n: &str, o: RunOutcome| println!("[{n}]\n{}\n--err {:?}", o.output, o.error);
            sh("tw", tw_outcome(&src));
            sh("vm", vm_outcome(&src));
            for t in [Tier::T0, Tier::T1, Tier::T2, Tier::T3] {
                sh(&format!("{t:?}"), vm_outcome_tiered(&src, &[], t, Some(tier)));
            }
        }
        // Which of the JSON array's programs run quickly and without touching anything: one per process.
        "one" => {
            let v: Vec<vkit::serde_json::Value> = vkit::serde_json::from_str(&src()).unwrap();
            let s = v[a[3].parse::<usize>().unwrap()]["src"].as_str().unwrap();
            let t = std::time::Instant::now();
            let o = tw_outcome(s);
            println!("{} {} {}", t.elapsed().as_millis(), o.output.len(), o.error.is_some());
        }
        _ => eprintln!("?"),
    }
}
