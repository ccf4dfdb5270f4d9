//! Explores every reachable state of the search for small graphs.
//!
//! Arguments: number of nodes, orders ("all" or "two"), subsets ("all" or
//! "full"), first graph, last graph (exclusive).  Prints one JSON object.
use std::collections::{HashMap, HashSet, VecDeque};

use scm_bisect::basic::{BasicSourceControlGraph, BasicStrategy, BasicStrategyKind};
use scm_bisect::search::{Search, Status};

#[derive(Clone, Debug)]
struct Dag {
    // reach[i] bit j: i is an ancestor of j (or equal)
    reach: Vec<u32>,
}

impl BasicSourceControlGraph for Dag {
    type Node = usize;
    type Error = std::convert::Infallible;

    fn ancestors(&self, node: usize) -> Result<HashSet<usize>, Self::Error> {
        Ok((0..self.reach.len()).filter(|i| self.reach[*i] >> node & 1 == 1).collect())
    }

    fn descendants(&self, node: usize) -> Result<HashSet<usize>, Self::Error> {
        Ok((0..self.reach.len()).filter(|i| self.reach[node] >> i & 1 == 1).collect())
    }
}

fn dag(n: usize, bits: u32) -> Dag {
    let mut reach: Vec<u32> = (0..n).map(|i| 1 << i).collect();
    for j in 0..n {
        for i in 0..j {
            if bits >> (j * (j - 1) / 2 + i) & 1 == 1 {
                let add = 1 << j;
                for k in 0..n {
                    if reach[k] >> i & 1 == 1 {
                        reach[k] |= add;
                    }
                }
            }
        }
    }
    Dag { reach }
}

fn permutations(items: &[usize]) -> Vec<Vec<usize>> {
    if items.is_empty() {
        return vec![vec![]];
    }
    let mut result = Vec::new();
    for (i, x) in items.iter().enumerate() {
        let mut rest = items.to_vec();
        rest.remove(i);
        for mut p in permutations(&rest) {
            p.insert(0, *x);
            result.push(p);
        }
    }
    result
}

#[derive(Default)]
struct Report {
    states: u64,
    transitions: u64,
    evaluations: u64,
    finals: u64,
    rejected: u64,
    violations: Vec<String>,
}

const KINDS: [(BasicStrategyKind, &str); 3] = [
    (BasicStrategyKind::Linear, "linear"),
    (BasicStrategyKind::LinearReverse, "linear-reverse"),
    (BasicStrategyKind::Binary, "binary"),
];

fn show(map: &[Status]) -> String {
    map.iter()
        .map(|s| match s {
            Status::Untested => '.',
            Status::Success => '+',
            Status::Failure => '-',
            Status::Indeterminate => '?',
        })
        .collect()
}

fn explore(g: &Dag, order: &[usize], kind: &(BasicStrategyKind, &str), rep: &mut Report) {
    let n = g.reach.len();
    let strategy = BasicStrategy::new(kind.0);
    let is_anc = |a: usize, d: usize| g.reach[a] >> d & 1 == 1;
    let start = (Search::new(g.clone(), order.to_vec()), vec![Status::Untested; n]);
    let mut seen: HashMap<Vec<u8>, ()> = HashMap::new();
    let key = |m: &[Status]| -> Vec<u8> { show(m).into_bytes() };
    seen.insert(key(&start.1), ());
    let mut queue = VecDeque::from([start]);
    while let Some((search, map)) = queue.pop_front() {
        rep.states += 1;
        let place = || {
            format!(
                "graph {:?} (bit j of entry i: i is an ancestor of j), nodes {:?}, strategy {}, results {}",
                g.reach, order, kind.1, show(&map)
            )
        };
        let with = |s: Status| -> HashSet<usize> { order.iter().copied().filter(|x| map[*x] == s).collect() };
        let good = with(Status::Success);
        let bad = with(Status::Failure);
        let implied_good = |x: usize| good.iter().any(|s| is_anc(x, *s));
        let implied_bad = |x: usize| bad.iter().any(|f| is_anc(*f, x));
        let heads: HashSet<usize> = good.iter().copied().filter(|x| !good.iter().any(|y| y != x && is_anc(*x, *y))).collect();
        let roots: HashSet<usize> = bad.iter().copied().filter(|x| !bad.iter().any(|y| y != x && is_anc(*y, *x))).collect();
        let candidates: Vec<usize> = order
            .iter()
            .copied()
            .filter(|x| map[*x] == Status::Untested && !implied_good(*x) && !implied_bad(*x))
            .collect();
        let fail = |rep: &mut Report, msg: String| rep.violations.push(format!("{}: {}", place(), msg));

        rep.evaluations += 1;
        let asked: Vec<usize> = match search.search(&strategy) {
            Err(err) => {
                fail(rep, format!("search failed: {err:?}"));
                continue;
            }
            Ok(solution) => {
                if solution.bounds.success != heads || solution.bounds.failure != roots {
                    fail(rep, format!(
                        "bounds are {:?} and {:?}, expected {:?} and {:?}",
                        solution.bounds.success, solution.bounds.failure, heads, roots
                    ));
                }
                let mut asked = Vec::new();
                for node in solution.next_to_search {
                    match node {
                        Ok(node) => asked.push(node),
                        Err(err) => {
                            fail(rep, format!("search failed: {err:?}"));
                            break;
                        }
                    }
                    if asked.len() > n {
                        fail(rep, format!("keeps asking: {asked:?}"));
                        break;
                    }
                }
                asked
            }
        };
        if asked.iter().collect::<HashSet<_>>().len() != asked.len() {
            fail(rep, format!("asks more than once: {asked:?}"));
        }
        if let Some(x) = asked.iter().find(|x| !candidates.contains(x)) {
            fail(rep, format!("asks for {x}, which is not searched for, already tested or implied: {asked:?}"));
        }
        if asked.is_empty() {
            rep.finals += 1;
            if !candidates.is_empty() {
                fail(rep, format!("finished although {candidates:?} are undecided"));
            }
        }
        if !rep.violations.is_empty() && rep.violations.len() > 20 {
            return;
        }

        // Any of the suggested nodes may be the first whose result arrives.
        // Results for nodes which are decided by now arrive late.
        for x in order.iter().copied() {
            for status in [Status::Success, Status::Failure, Status::Indeterminate] {
                let wrong = match status {
                    Status::Success => implied_bad(x),
                    Status::Failure => implied_good(x),
                    _ => matches!(map[x], Status::Success | Status::Failure),
                };
                let mut next = search.clone();
                let result = next.notify(x, status);
                rep.transitions += 1;
                let mut want = map.clone();
                if !wrong {
                    want[x] = status;
                }
                if result.is_ok() == wrong {
                    fail(rep, format!("result {status:?} for {x} was {}", if wrong { "accepted" } else { "rejected" }));
                    continue;
                }
                if wrong {
                    rep.rejected += 1;
                    let after = next.search(&strategy).ok().map(|s| {
                        (s.bounds.success, s.bounds.failure, s.next_to_search.filter_map(Result::ok).take(n + 1).collect::<Vec<_>>())
                    });
                    if after != Some((heads.clone(), roots.clone(), asked.clone())) {
                        fail(rep, format!("the contradictory result {status:?} for {x} changed the state to {after:?}"));
                    }
                    continue;
                }
                if (asked.contains(&x) || map[x] != Status::Untested || !candidates.contains(&x))
                    && seen.insert(key(&want), ()).is_none()
                {
                    queue.push_back((next, want));
                }
            }
        }
    }
}

/// The commits tested one after the other, with every consistent set of bad
/// nodes and every set of untestable ones.
fn sequential(g: &Dag, order: &[usize], kind: &(BasicStrategyKind, &str), rep: &mut Report) {
    let n = g.reach.len();
    let strategy = BasicStrategy::new(kind.0);
    for bad in 0..1u32 << n {
        if (0..n).any(|i| bad >> i & 1 == 1 && g.reach[i] & !bad != 0) {
            continue;
        }
        for skip in 0..1u32 << n {
            if skip.count_ones() > 1 {
                continue;
            }
            let mut search = Search::new(g.clone(), order.to_vec());
            let mut tested = HashSet::new();
            rep.evaluations += 1;
            loop {
                let next = match search.search(&strategy) {
                    Ok(s) => s.next_to_search.into_iter().next(),
                    Err(_) => None,
                };
                let Some(Ok(x)) = next else { break };
                let status = if skip >> x & 1 == 1 {
                    Status::Indeterminate
                } else if bad >> x & 1 == 1 {
                    Status::Failure
                } else {
                    Status::Success
                };
                rep.transitions += 1;
                if !tested.insert(x) || search.notify(x, status).is_err() {
                    rep.violations.push(format!(
                        "graph {:?} nodes {order:?} strategy {}: bad {bad:b} untestable {skip:b}: {x} asked twice or its result rejected",
                        g.reach, kind.1
                    ));
                    return;
                }
            }
            let good_bounds = search.success_bounds().unwrap();
            let bad_bounds = search.failure_bounds().unwrap();
            let lost: Vec<usize> = order
                .iter()
                .copied()
                .filter(|x| {
                    let g_ = good_bounds.iter().any(|s| g.reach[*x] >> s & 1 == 1);
                    let b_ = bad_bounds.iter().any(|f| g.reach[*f] >> x & 1 == 1);
                    let is_bad = bad >> x & 1 == 1;
                    (g_ && is_bad) || (b_ && !is_bad) || (!g_ && !b_ && skip >> x & 1 == 0)
                })
                .collect();
            if !lost.is_empty() {
                rep.violations.push(format!(
                    "graph {:?} nodes {order:?} strategy {}: bad {bad:b} untestable {skip:b}: ends with {good_bounds:?} and {bad_bounds:?}, wrong for {lost:?}",
                    g.reach, kind.1
                ));
                return;
            }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let n: usize = args[0].parse().unwrap();
    let from: u32 = args[3].parse().unwrap();
    let to: u32 = args[4].parse().unwrap();
    let mut rep = Report::default();
    for bits in from..to {
        let g = dag(n, bits);
        // Edges implied by others make no difference: take the graphs which
        // have all of them.
        let closed = (0..n).all(|j| (0..j).all(|i| g.reach[i] >> j & 1 == bits >> (j * j.saturating_sub(1) / 2 + i) & 1));
        if !closed {
            continue;
        }
        for mask in 1..1u32 << n {
            if args[2] == "full" && mask != (1 << n) - 1 {
                continue;
            }
            let items: Vec<usize> = (0..n).filter(|i| mask >> i & 1 == 1).collect();
            let orders = if args[1] == "all" {
                permutations(&items)
            } else {
                vec![items.clone(), items.iter().rev().copied().collect()]
            };
            for order in orders {
                for kind in &KINDS {
                    explore(&g, &order, kind, &mut rep);
                    sequential(&g, &order, kind, &mut rep);
                }
            }
        }
    }
    rep.violations.truncate(20);
    println!(
        "{}",
        serde_json::json!({
            "states": rep.states,
            "transitions": rep.transitions,
            "evaluations": rep.evaluations,
            "finals": rep.finals,
            "rejected": rep.rejected,
            "violations": rep.violations,
        })
    );
}
