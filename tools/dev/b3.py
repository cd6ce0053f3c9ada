exec(open('/tmp/bugs/b2.py').read())
_m=[b for b in BUGS if b['id']=='S08'][0]
_m['edits']=[('goko/src/covertree/builders.rs',"            node.insert_singletons(self.covered.into_indexes());","            let mut leftover = self.covered.into_indexes();\n            leftover.truncate(parameters.leaf_cutoff.max(256));\n            node.insert_singletons(leftover);")]
_m['needs']='a node at the resolution limit that still holds more than 256 points (duplicates, for instance)'
_m['what']='the points beyond the cap are dropped from the tree'
_m['main']=T+'''fn main() {
    for (n, m) in [(20usize, 3usize), (300, 5), (900, 2)].iter() {
        let d: Vec<f32> = (0..*n).map(|i| if i % 50 == 49 { i as f32 } else { (i % m) as f32 * 0.0001 }).collect();
        let w = builder(2.0, true, 1, -4, 1, false).build(Arc::new(Cloud::new(d, 1).unwrap())).unwrap();
        let rd = w.reader();
        let m = snap(&rd);
        let mut all = vec![];
        below(&m, rd.root_address(), &mut all);
        all.sort();
        assert_eq!(all, (0..*n).collect::<Vec<_>>());
    }
}
'''
BUGS=[_m]
exec(open('/tmp/bugs/b2.py').read().split('BUGS=[')[0])
BUGS.append(dict(id='S11',property='P05',edits=[('goko/src/covertree/tree.rs','''        self.greedy_knn_nodes(point, &mut query_heap);

        while self.greedy_knn_nodes(point, &mut query_heap) {}
        Ok(query_heap.unpack())
    }

    fn greedy_knn_nodes<P''','''        for _ in 0..40 {
            if !self.greedy_knn_nodes(point, &mut query_heap) {
                break;
            }
        }
        Ok(query_heap.unpack())
    }

    fn greedy_knn_nodes<P''')],
 needs='a routing query that has to look into more than forty leaves',
 what='the search stops early: centres that are nearer, or missing altogether, are not offered',
 main=T+'''fn main() {
    let mut r = Lcg(3);
    for round in 0..20u64 {
        let (n, dim) = (100 + 10 * round as usize, 1 + (round as usize % 2));
        let d = data(&mut r, n, dim, round);
        let w = builder(2.0, false, 1, -30, round, false).build(Arc::new(Cloud::new(d.clone(), dim).unwrap())).unwrap();
        let rd = w.reader();
        let centers: BTreeSet<usize> = snap(&rd).keys().map(|a| a.1).collect();
        for k in [1usize, 5, 60, 90].iter() {
            let q: Vec<f32> = (0..dim).map(|_| r.next() * 2.0).collect();
            let mut want: Vec<f32> = centers.iter().map(|c| (0..dim).map(|j| (d[c * dim + j] - q[j]).powi(2)).sum::<f32>().sqrt()).collect();
            want.sort_by(|a, b| a.partial_cmp(b).unwrap());
            want.truncate(*k);
            let got: Vec<f32> = rd.routing_knn(&&q[..], *k).unwrap().iter().map(|x| x.0).collect();
            assert_eq!(got.len(), want.len(), "round {} k {}", round, k);
            for (g, w) in got.iter().zip(&want) { assert!((g - w).abs() <= 1e-3 * (1.0 + w), "round {} k {}: {:?} expected {:?}", round, k, got, want); }
        }
    }
}
'''))
