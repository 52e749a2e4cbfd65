mod eval;
mod fx;
mod ghost;
mod interp;
mod json;
mod lemmas;
mod loops;
mod mir;
mod native;
mod props;
mod real;
mod solve;
mod prove;
mod spec;
mod term;
mod tmpl;
mod val;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "check" {
        // check MIR PROPERTY TIER SEED EVIDENCE REPORT KNOWN CMD
        let s = std::fs::read_to_string(&a[2]).expect("program dump");
        let j = json::parse(&s).expect("program dump");
        let p = mir::load(&j);
        let known = std::fs::read_to_string(&a[8]).unwrap_or_default();
        let rc = props::check(&p, &a[3], &a[4], a[5].parse().unwrap_or(1), &a[6], &a[7], &known, &a[9]);
        std::process::exit(rc);
    }
    let s = std::fs::read_to_string(&a[1]).unwrap();
    let j = json::parse(&s).unwrap();
    let p = mir::load(&j);
    let cfg = lemmas::Cfg { thorough: std::env::var("VERIF_TIER").map_or(false, |x| x == "thorough") };
    for l in &a[2..] {
        let (n, filt) = match l.split_once(':') {
            Some((x, y)) => (x, y),
            None => (l.as_str(), ""),
        };
        let mut jobs = props::jobs(n, cfg);
        jobs.retain(|j| j.part.contains(filt));
        let t = std::time::Instant::now();
        let outs = prove::run_all(&p, &jobs, 8, true);
        let n: usize = outs.iter().map(|o| o.obs.len()).sum();
        let k: usize = outs.iter().map(|o| o.obs.iter().filter(|x| x.v == prove::Verdict::Ok).count()).sum();
        println!("{}: {} jobs, {}/{} obligations, {:?}", l, outs.len(), k, n, t.elapsed());
    }
}
