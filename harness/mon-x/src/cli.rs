//! X09: the command line tool answers as the library does, and keeps its hands off other files.
use crate::prog::Prog;
use std::collections::{BTreeMap, HashMap};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::Command;
use vmon::{cut, Ctx};

const PROGRAMS: [&str; 12] = ["x^2 = 2\n", "guess 9 for x\nx^3 - x = 11", "x = 1 +", "x = #nope", "sin(x) = 2", "x + y = 3\n", "x = 3 // #nonsense\ny = x",
    "keep x on [0, 1]\nx = 4", "// é\nx = [ft->in] * 2\r\ny = x / 2\r\n", "", "if 2 > 1:\n    x = 3\nelse:\n    x = 4\nend", "// [nothing->else]\nexp = 3"];

fn dir_of(d: &Path) -> BTreeMap<String, Vec<u8>> {
    fs::read_dir(d).into_iter().flatten().flatten()
        .map(|e| (e.file_name().to_string_lossy().into_owned(), fs::read(e.path()).unwrap_or_else(|_| format!("{:?}", dir_of(&e.path())).into_bytes()))).collect()
}

/// The values among the lines of an answer.
fn values(out: &str) -> Option<HashMap<String, f64>> {
    let (_, rest) = out.split_once("Solution:")?;
    let (soln, _) = rest.split_once("Procedure:")?;
    let mut m = HashMap::new();
    for l in soln.lines() {
        if let Some((k, v)) = l.split_once(" = ") {
            if m.insert(k.trim().to_string(), v.trim().parse().ok()?).is_some() {
                return None;
            }
        }
    }
    Some(m)
}

fn run(d: &Path, args: &[String]) -> Result<(Option<i32>, String), String> {
    let exe = std::env::var("VMON_NXC").map_err(|e| e.to_string())?;
    vmon::run_tool(Command::new(exe).args(args).current_dir(d)).map(|(code, out, err)| (code, out + &err))
}

pub fn case(c: &mut Ctx) {
    let d = PathBuf::from(format!("{}/cli-{}-{}", c.scratch, std::process::id(), c.case));
    fs::create_dir_all(&d).expect("scratch directory");
    in_dir(c, &d);
    let _ = fs::remove_dir_all(&d);
}

fn in_dir(c: &mut Ctx, d: &Path) {
    let mut exact = false;
    let text = if c.rng.chance(0.5) {
        let Some(p) = Prog::random(c, true) else { return c.count("skipped") };
        let mut lines: Vec<String> = p.consts.iter().map(|(k, v)| format!("const {k} = {v}")).collect();
        lines.extend(p.equations(c));
        if c.rng.chance(0.3) {
            lines.push("// #remark [about->nothing] if".into());
        }
        lines.join("\n")
    } else {
        exact = true;
        c.rng.pick(&PROGRAMS).to_string()
    };
    let file = *c.rng.pick(&["model.nxs", "model.nxs", "model", "model.txt", "a.b.nxs", "with space.nxs", "m.soln", "é.nxs", "model.TXT", "sub.d/model.nxs"]);
    if let Some((s, _)) = file.split_once('/') {
        fs::create_dir_all(d.join(s)).expect("scratch directory");
    }
    fs::write(d.join(file), &text).expect("scratch file");
    let (mut margin, mut limit): (f64, usize) = (1e-4, 100);
    let mut opts: Vec<Vec<String>> = vec![];
    let mut bad = false;
    let word = |s: &str| s.to_string();
    if c.rng.chance(0.5) {
        let o = word(c.rng.pick(&["-tol", "--margin"]));
        if c.rng.chance(0.15) {
            bad = true;
            opts.push(vec![o, word(c.rng.pick(&["tight", "1,5", "--", "1e-"]))]);
        } else {
            let v = *c.rng.pick(&["1e-2", "0.001", "1e-7", "0.5", "1E-5", "-0.001", "0", "-inf"]);
            margin = v.parse().unwrap_or(margin);
            opts.push(vec![o, word(v)]);
        }
    }
    if c.rng.chance(0.5) {
        let o = word(c.rng.pick(&["-max", "--max-iterations"]));
        if c.rng.chance(0.15) {
            bad = true;
            opts.push(vec![o, word(c.rng.pick(&["many", "-1", "1.5", "1e3", ""]))]);
        } else {
            let v = *c.rng.pick(&["0", "1", "2", "3", "5", "50", "400"]);
            limit = v.parse().unwrap_or(limit);
            opts.push(vec![o, word(v)]);
        }
    }
    let to_file = c.rng.chance(0.5);
    if to_file {
        opts.push(vec![word(c.rng.pick(&["-o", "--output-file"]))]);
    }
    let verbose = c.rng.chance(0.3);
    if verbose {
        opts.push(vec![word(c.rng.pick(&["-v", "--verbose"]))]);
    }
    c.rng.shuffle(&mut opts);
    if !bad && c.rng.chance(0.05) {
        bad = true;
        opts.push(vec![word(c.rng.pick(&["-tol", "-max", "--margin", "--max-iterations"]))]);
    }
    let mut args: Vec<String> = vec![file.to_string()];
    args.extend(opts.concat());
    let missing = c.rng.chance(0.05);
    if missing {
        args[0] = word(c.rng.pick(&["nothing.nxs", "sub.d", "", "model.nxs/x"]));
        if args[0] == file {
            return;
        }
    }
    let out_name = if file.ends_with(".txt") { Path::new(file).with_extension("soln.txt") } else { Path::new(file).with_extension("txt") };
    let old = c.rng.chance(0.3);
    if old {
        fs::write(d.join(&out_name), "an older answer").expect("scratch file");
    }
    // Nowhere to put the answer
    let blocked = !old && c.rng.chance(0.05);
    if blocked {
        fs::create_dir_all(d.join(&out_name).join("in the way")).expect("scratch directory");
    }
    let home = d.join(Path::new(file).parent().unwrap_or(Path::new("")));
    let before = dir_of(&home);
    let (code, out) = match run(d, &args) {
        Ok(r) => r,
        Err(e) => return c.fail("no-end", format!("nxc {args:?} with {text:?}: {e}")),
    };
    let after = dir_of(&home);
    let t = text.clone();
    let want = cut(move || nexsys::solve_with_preprocessors(&t, margin, limit).map(|r| r.1).ok()).ok().flatten();
    let what = format!("nxc {args:?} with {text:?}");
    c.seen(&what);
    c.sample("run", || what.clone());
    c.check(after.get(Path::new(file).file_name().and_then(|f| f.to_str()).unwrap_or(file)) == Some(&text.as_bytes().to_vec()), "input-changed", || what.clone());
    let solved = !bad && !missing && want.is_some() && !(blocked && to_file);
    if blocked && to_file {
        c.count("nowhere to write to");
    }
    // With few steps, the order of the unknowns of a system may decide
    let sure = exact || limit >= 50 || limit == 0 || margin <= 0.0 || bad || missing;
    if margin <= 0.0 || limit == 0 {
        c.count("hopeless limits");
    }
    if !sure && (code == Some(0)) != solved {
        return c.count("narrow");
    }
    c.count(if solved { "solved" } else if bad { "wrong options" } else if missing { "missing files" } else { "not solved" });
    c.check(code == Some(i32::from(!solved)), "exit-code", || format!("{what}: exit {code:?}, printed {out:?}"));
    let out_file = out_name.file_name().map(|f| f.to_string_lossy().into_owned()).unwrap_or_default();
    let mut rest = after.clone();
    let written = rest.remove(&out_file);
    let mut rest_before = before.clone();
    let older = rest_before.remove(&out_file);
    c.check(rest == rest_before, "other-files", || format!("{what}: had {:?}, has {:?}", before.keys(), after.keys()));
    if solved {
        let answer = if to_file {
            c.count("written to files");
            match &written {
                Some(w) if Some(w) != older.as_ref() => String::from_utf8_lossy(w).into_owned(),
                _ => return c.fail("not-written", format!("{what}: {out_file} is {written:?}, printed {out:?}")),
            }
        } else {
            c.check(written == older, "written", || format!("{what}: wrote {out_file}"));
            out.clone()
        };
        let got = values(&answer);
        let same = match (&got, &want) {
            (Some(g), Some(w)) => g.len() == w.len() && w.iter().all(|(k, x)| g.get(k).is_some_and(|y| {
                if exact && w.len() <= 4 { x == y } else { (x - y).abs() <= 20.0 * margin.max(0.0) + 1e-9 }
            })),
            _ => false,
        };
        c.check(same, "answer", || format!("{what}: {answer:?}, expected {want:?}"));
    } else {
        c.check(written == older, "written-without-answer", || format!("{what}: wrote {out_file}"));
        c.check(blocked || values(&out).is_none_or(|v| v.is_empty()), "answer-without-solution", || format!("{what}: {out:?}"));
        c.check(!out.contains("panicked"), "panic", || format!("{what}: {out:?}"));
    }
    if verbose {
        c.count("verbose");
    }
    if c.rng.chance(0.02) {
        let help = word(c.rng.pick(&["help", "-h"]));
        let r = run(d, &[help]);
        c.check(r.as_ref().is_ok_and(|r| r.0 == Some(0) && r.1.contains("USAGE")), "help", || format!("{r:?}"));
        let r = run(d, &[]);
        c.check(r.as_ref().is_ok_and(|r| r.0 == Some(0) && r.1.contains("USAGE")), "help", || format!("{r:?}"));
        c.count("help");
    }
}
