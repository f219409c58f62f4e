//! Deterministic simulation of image-rs/image.
mod codec;
mod enc;
mod forge;
mod forge_jpeg;
mod input;
mod meta_model;
mod p_anim;
mod p_iso;
mod p_limits;
mod p_meta;
mod p_par;
mod p_read;
mod p_rect;
mod p_threads;
mod p_write;
mod run;

use simrt::{alloc, rng, shm, simio, simos};
use run::{Opts, PropDef, Tier};

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

fn props() -> Vec<PropDef> {
    let real_dec = "every decoder of image, ImageReader, animation iterators, the codec crates they call, std's BufReader/File/threads/locks, rayon";
    let real_enc = "every encoder of image, save/write functions, every decoder of image, the codec crates they call, std's BufWriter/BufReader/File, rayon";
    let stub_io = "byte source and file system (simulated), thread scheduler, clock, randomness, processor count, allocator behaviour";
    vec![
        PropDef { id: "C01", level: "exploration", quick_runs: 130000,
            rule: "one execution = one decode of one stream under one seeded delivery schedule; non-trivial when at least one read came back short or interrupted; distinct by (stream, route, full sequence of I/O results)",
            gen: p_read::gen01, exec: p_read::exec01, shrink: p_read::shrink, real: real_dec, stub: stub_io },
        PropDef { id: "C02", level: "fault_enumeration", quick_runs: 140000,
            rule: "one execution = one decode of one valid stream with one or two injected source failures; non-trivial when an injected failure was actually hit; distinct by (stream, route, full sequence of I/O results)",
            gen: p_read::gen02, exec: p_read::exec02, shrink: p_read::shrink, real: real_dec, stub: stub_io },
        PropDef { id: "C03", level: "fault_enumeration", quick_runs: 140000,
            rule: "one execution = one decode of a proper prefix of a valid stream; non-trivial when the end was reached or an error was reported; distinct by (stream, cut, route, sequence of I/O results)",
            gen: p_read::gen03, exec: p_read::exec03, shrink: p_read::shrink, real: real_dec, stub: stub_io },
        PropDef { id: "C04", level: "fault_enumeration", quick_runs: 120000,
            rule: "one execution = one decode of a valid or damaged stream whose source ends early or fails for good, with the number of source operations counted; non-trivial when the end or the failure was met; distinct by (stream, route, sequence of I/O results)",
            gen: p_read::gen04, exec: p_read::exec04, shrink: p_read::shrink, real: real_dec, stub: stub_io },
        PropDef { id: "C05", level: "fault_enumeration", quick_runs: 140000,
            rule: "one execution = one encoding under one seeded sequence of short and interrupted writes; non-trivial when a write was shortened or interrupted; distinct by (image, encoder and options, interface, full sequence of I/O results)",
            gen: p_write::gen05, exec: p_write::exec05, shrink: p_write::shrink, real: real_enc, stub: stub_io },
        PropDef { id: "C06", level: "fault_enumeration", quick_runs: 140000,
            rule: "one execution = one encoding with one or two injected sink failures or a full disk; non-trivial when the failure was hit; distinct by (image, encoder and options, interface, full sequence of I/O results)",
            gen: p_write::gen06, exec: p_write::exec06, shrink: p_write::shrink, real: real_enc, stub: stub_io },
        PropDef { id: "C07", level: "exploration", quick_runs: 260000,
            rule: "one execution = one image encoded losslessly under a seeded write schedule and decoded again under a seeded read schedule; distinct by (image, encoder and options, interfaces, sequence of I/O results)",
            gen: p_write::gen07, exec: p_write::exec07, shrink: p_write::shrink, real: real_enc, stub: stub_io },
        PropDef { id: "C17", level: "fault_enumeration", quick_runs: 350000,
            rule: "one execution = one sequence of calls on one encoder or decoder with failures, refusals, a panicking caller-supplied sink or source, and abandonment; distinct by (calls, sequence of I/O results)",
            gen: p_write::gen17, exec: p_write::exec17, shrink: p_write::shrink17, real: real_enc, stub: stub_io },
        PropDef { id: "C11", level: "exploration", quick_runs: 110000,
            rule: "one execution = one decode of a damaged stream (1-24 edits of a valid one), possibly with a failing source; distinct by (stream, sequence of I/O results)",
            gen: p_read::gen11, exec: p_read::exec11, shrink: p_read::shrink, real: real_dec, stub: stub_io },
        PropDef { id: "C08", level: "fault_enumeration", quick_runs: 250000,
            rule: "one execution = one animation (GIF, APNG, WebP) iterated under one seeded delivery and failure schedule and compared frame by frame with a compositing model, or one history of GifEncoder calls read back; non-trivial with two or more frames; distinct by (stream, interface, sequence of I/O results)",
            gen: p_anim::gen08, exec: p_anim::exec08, shrink: p_anim::shrink08, real: "GifDecoder, PngDecoder/ApngDecoder, WebPDecoder and their frame iterators, GifEncoder, the gif, png and image-webp crates", stub: stub_io },
        PropDef { id: "C09", level: "fault_enumeration", quick_runs: 400000,
            rule: "one execution = one history of 1-7 rectangle reads (and possibly a full read) on one decoder, under one seeded delivery and failure schedule; non-trivial with two or more requests; distinct by (stream, requests, sequence of I/O results)",
            gen: p_rect::gen09, exec: p_rect::exec09, shrink: p_rect::shrink09, real: "BmpDecoder, FarbfeldDecoder, image::load_rect, std's BufReader", stub: stub_io },
        PropDef { id: "C10", level: "exploration", quick_runs: 250000,
            rule: "one execution = one decode of one (valid, damaged or lying) stream under one set of limits, with every byte of memory in use counted; distinct by (stream, limits, interface, sequence of I/O results)",
            gen: p_limits::gen10, exec: p_limits::exec10, shrink: p_limits::shrink10, real: real_dec, stub: stub_io },
        PropDef { id: "C12", level: "fault_enumeration", quick_runs: 200000,
            rule: "one execution = one stream, path or memory block opened and guessed (and decoded) under one seeded delivery and failure schedule; distinct by (stream, position, preset, interface, sequence of I/O results)",
            gen: p_meta::gen12, exec: p_meta::exec12, shrink: p_meta::shrink12, real: real_dec, stub: stub_io },
        PropDef { id: "C13", level: "fault_enumeration", quick_runs: 180000,
            rule: "one execution = one sequence of metadata queries followed by decoding, under one seeded delivery and failure schedule; non-trivial when something was asked; distinct by (stream, queries, interface, sequence of I/O results)",
            gen: p_meta::gen13, exec: p_meta::exec13, shrink: p_meta::shrink13, real: real_dec, stub: stub_io },
        PropDef { id: "C14", level: "exploration", quick_runs: 80000,
            rule: "one execution = one parallel iteration (source, adaptors, terminal operation, pool) under one seeded thread schedule; non-trivial when threads were switched at least twice; distinct by (image size and type, iterator, full sequence of scheduling decisions)",
            gen: p_par::gen14, exec: p_par::exec14, shrink: p_par::shrink14, real: "image's parallel pixel iterators and ImageBuffer, rayon and its thread pool, std's threads, mutexes, condition variables", stub: stub_io },
        PropDef { id: "C15", level: "fault_enumeration", quick_runs: 16000,
            rule: "one execution = one OpenEXR decode or encode or AVIF encode under one seeded thread schedule, delivery schedule and possibly a source, sink or thread-creation failure; non-trivial when worker threads ran; distinct by (input, sequence of I/O results, full sequence of scheduling decisions)",
            gen: p_threads::gen15, exec: p_threads::exec15, shrink: p_threads::shrink15, real: "OpenExrDecoder, OpenExrEncoder, AvifEncoder, the exr, ravif and rav1e crates, rayon and its thread pools, std's channels, mutexes and condition variables", stub: stub_io },
        PropDef { id: "C16", level: "fault_enumeration", quick_runs: 60000,
            rule: "one execution = 1-4 threads each carrying out 1-5 operations (decode, encode, open, save, transform, abandon, nest) under one seeded thread schedule with failing and panicking sources and sinks, each compared with itself run alone in a process of its own; non-trivial with two or more operations; distinct by (outcomes, full sequence of scheduling decisions)",
            gen: p_iso::gen16, exec: p_iso::exec16, shrink: p_iso::shrink16, real: real_enc, stub: stub_io },
        PropDef { id: "C18", level: "exploration", quick_runs: 140000,
            rule: "one execution = one decode under seeded memory conditions (previous content and alignment of the caller's buffer, stale allocator memory, minimal alignment); non-trivial when it succeeds; distinct by (stream, route, conditions)",
            gen: p_read::gen18, exec: p_read::exec18, shrink: p_read::shrink, real: real_dec, stub: stub_io },
    ]
}

fn main() {
    unsafe {
        // same addresses in every process image, where the sandbox allows it
        if std::env::var_os("SIMIMG_NOASLR").is_none() {
            std::env::set_var("SIMIMG_NOASLR", "1");
            let cur = libc::personality(0xffffffff);
            if cur >= 0 && libc::personality((cur | 0x0040000) as _) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
                eprintln!("re-exec failed: {e}");
            }
        }
    }
    let a: Vec<String> = std::env::args().skip(1).collect();
    let _ = simrt::run::FATAL.set(run::fatal);
    let _ = simrt::run::COUNT_OP.set(run::count_op);
    run::install_hook();
    input::load_corpus();
    run::load_known();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let has = |k: &str| a.iter().any(|x| x == k);
    let find = |id: &str| props().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    });
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => {
            let p = find(&a[1]);
            let tier = match get("--tier").or(std::env::var("VERIF_TIER").ok()).as_deref() {
                Some("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let o = Opts {
                tier,
                seed: get("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1),
                workers: get("--workers").and_then(|s| s.parse().ok()).unwrap_or(8),
                runs: get("--runs").and_then(|s| s.parse().ok()),
                wall: get("--wall").and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 240.0 } else { 3600.0 }),
                only: None,
                quiet: has("--quiet"),
                evidence: !has("--no-evidence"),
                keep_going: has("--all"),
            };
            run::check(&p, &o)
        }
        Some("list") => {
            for p in props() {
                println!("{} {} {}", p.id, p.level, p.quick_runs);
            }
            0
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[1]).expect("replay file")).expect("json");
            let p = find(v["property"].as_str().unwrap_or(""));
            run::replay(&p, &a[1], has("--quiet"))
        }
        Some("one") => {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[1]).expect("scenario file")).expect("json");
            run::one(&find(v["property"].as_str().unwrap_or("")), &v)
        }
        Some("body") => {
            // the scenario of one run: simimg body ID SEED RUN
            let p = find(&a[1]);
            let idx = a[3].parse().unwrap();
            println!("{}", serde_json::json!({"property": p.id, "run": idx, "body": run::body_of(&p, a[2].parse().unwrap(), idx, Tier::Quick)}));
            0
        }
        Some("forge") => {
            let d = forge::forge(&a[1], &mut rng::Rng::new(a[2].parse().unwrap()), a.get(3).and_then(|s| s.parse().ok()).unwrap_or(40));
            use std::io::Write;
            std::io::stdout().write_all(&d).unwrap();
            0
        }
        Some("accepted") => {
            // how many generated files of a format the library decodes
            let mut n = std::collections::BTreeMap::<String, u32>::new();
            for i in 0..a.get(2).and_then(|s| s.parse().ok()).unwrap_or(500u64) {
                let d = forge::forge(&a[1], &mut rng::Rng::new(i), 64);
                let r = std::panic::catch_unwind(|| image::load_from_memory_with_format(&d, codec::fmt(if a[1] == "apng" { "png" } else { &a[1] })));
                let k = match r {
                    Ok(Ok(_)) => "decoded".into(),
                    Ok(Err(e)) => e.to_string(),
                    Err(_) => "panic".into(),
                };
                *n.entry(k).or_default() += 1;
            }
            n.iter().for_each(|(k, n)| println!("{n:6} {k}"));
            0
        }
        Some("mkavif") => {
            // generates the committed AVIF corpus with the ravif crate
            let mut r = rng::Rng::new(42);
            for (i, (w, h, alpha, ten)) in [(8usize, 8usize, false, false), (21, 13, true, false), (16, 16, false, true), (33, 5, true, true), (1, 1, false, false)].into_iter().enumerate() {
                let c = forge::content(&mut r, w * h, 4);
                let px: Vec<rgb::RGBA8> = c.chunks(4).map(|p| rgb::RGBA8::new(p[0], p[1], p[2], if alpha { p[3] } else { 255 })).collect();
                let e = ravif::Encoder::new().with_quality(80.0).with_alpha_quality(80.0).with_speed(9)
                    .with_depth(if ten { Some(10) } else { Some(8) }).with_num_threads(Some(1))
                    .encode_rgba(ravif::Img::new(&px[..], w, h)).unwrap();
                std::fs::write(format!("{}/{i}-{w}x{h}.avif", a[1]), e.avif_file).unwrap();
            }
            0
        }
        _ => {
            eprintln!("usage: simimg check <ID> [--tier quick|thorough] [--seed N] [--runs N] [--workers N] [--wall S] [--all] | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
