//! Programs: `name @ S=fix:4 E=tok [K=V..] @ setup ops @ t1 ops // t2 ops @ teardown ops`
//! op = `name[:slicereg][!panicat] [int,int,...][~k op]*`, ops separated by `;`; the op behind `~k` is called by the k-th callback of the first
#[derive(Clone, Debug)]
pub struct Op { pub name: String, pub src: usize, pub pan: i32, pub a: Vec<i64>, /** calls made by the op's callbacks: (number of the callback, call) */ pub nest: Vec<(i32, Op)> }
#[derive(Clone, Debug)]
pub enum Storage { Dbl(usize), Lin(usize, usize), Fix(usize) }
#[derive(Clone, Debug)]
pub struct Prog {
    pub name: String,
    pub storage: Storage,
    pub elem: String,
    pub opts: std::collections::HashMap<String, i64>,
    pub setup: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    pub teardown: Vec<Op>,
}
fn ops(s: &str) -> Vec<Op> {
    s.split(';').map(str::trim).filter(|x| !x.is_empty()).map(|x| {
        let mut parts = x.split('~');
        let first = op(parts.next().unwrap());
        Op { nest: parts.map(|y| { let (k, y) = y.split_once(' ').unwrap_or_else(|| panic!("bad nested op in {x}")); (k.parse().unwrap(), op(y)) }).collect(), ..first }
    }).collect()
}
fn op(x: &str) -> Op {
        let mut it = x.split_whitespace();
        let head = it.next().unwrap();
        let a = match it.next() {
            // comma separated, a..b stands for a,a+1,..,b
            Some(l) => l.split(',').flat_map(|v| {
                let n = |v: &str| v.parse::<i64>().unwrap_or_else(|_| panic!("bad int in {x}"));
                match v.split_once("..") { Some((a, b)) => n(a)..n(b) + 1, None => n(v)..n(v) + 1 }
            }).collect(),
            None => vec![],
        };
        let (head, pan) = match head.split_once('!') { Some((h, p)) => (h, p.parse().unwrap()), None => (head, -1) };
        let (name, src) = match head.split_once(':') { Some((n, r)) => (n, r.parse().unwrap()), None => (head, 0) };
        Op { name: name.to_string(), src, pan, a, nest: vec![] }
}
pub fn parse(line: &str) -> Prog {
    let f: Vec<&str> = line.split('@').map(str::trim).collect();
    assert!(f.len() == 5, "bad program line: {line}");
    let mut storage = Storage::Dbl(32);
    let mut elem = "tok".to_string();
    let mut opts = std::collections::HashMap::new();
    for kv in f[1].split_whitespace() {
        let (k, v) = kv.split_once('=').unwrap();
        match k {
            "S" => {
                let p: Vec<&str> = v.split(':').collect();
                storage = match p[0] {
                    "dbl" => Storage::Dbl(p.get(1).map(|x| x.parse().unwrap()).unwrap_or(32)),
                    "lin" => Storage::Lin(p[1].parse().unwrap(), p[2].parse().unwrap()),
                    "fix" => Storage::Fix(p[1].parse().unwrap()),
                    _ => panic!("bad storage {v}"),
                }
            }
            "E" => elem = v.to_string(),
            _ => { opts.insert(k.to_string(), v.parse().unwrap()); }
        }
    }
    Prog {
        name: f[0].to_string(), storage, elem, opts,
        setup: ops(f[2]),
        threads: if f[3].is_empty() { vec![] } else { f[3].split("//").map(ops).collect() },
        teardown: ops(f[4]),
    }
}
