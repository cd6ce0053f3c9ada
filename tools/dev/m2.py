B='goko/src/covertree/builders.rs'; DC='goko/src/covertree/data_caches.rs'; N='goko/src/covertree/node.rs'; T='goko/src/covertree/tree.rs'; L='goko/src/covertree/layer.rs'
Q='goko/src/covertree/query_tools/knn_query_heap.rs'; W='goko/src/monomap/write.rs'; TR='goko/src/plugins/discrete/tracker.rs'; BL='goko/src/plugins/discrete/baseline.rs'
CA='goko/src/plugins/discrete/categorical.rs'; DI='goko/src/plugins/discrete/dirichlet.rs'; DG='goko/src/plugins/gaussians/diag_gaussian.rs'; PL='goko/src/plugins/labels.rs'; PU='goko/src/plugins/utils.rs'
G='pointcloud/src/glued_data_cloud.rs'; BT='pointcloud/src/base_traits.rs'; MM='pointcloud/src/data_sources/memmap_ram.rs'; LS='pointcloud/src/label_sources/mod.rs'; SM='pointcloud/src/summaries/mod.rs'
PT='pointcloud/src/points/mod.rs'; L2='pointcloud/src/metrics/l2_f32.rs'; L2M='pointcloud/src/metrics/l2_misc.rs'
SV='serve_goko/src/http/service.rs'; ST='serve_goko/src/api/tracker.rs'; SP='serve_goko/src/parsers/mod.rs'; SD='serve_goko/src/parsers/msgpack_dense.rs'; SA='serve_goko/src/api/mod.rs'; SK='serve_goko/src/api/knn.rs'
M=[
('t1','P01',[(N,"        self.coverage_count += addresses.len();\n        self.singles_indexes.extend(addresses);","        self.coverage_count += addresses.len().min(96);\n        self.singles_indexes.extend(addresses);")]),
('t2','P01',[(B,"        let mut new_nodes = if self.covered.len() <= parameters.leaf_cutoff\n            || scale_index < parameters.min_res_index\n        {\n            //println!(\"== This is getting cut down by parameters ==\");\n            node.insert_singletons(self.covered.into_indexes());","        let mut new_nodes = if self.covered.len() <= parameters.leaf_cutoff\n            || scale_index < parameters.min_res_index\n        {\n            //println!(\"== This is getting cut down by parameters ==\");\n            let mut leftover = self.covered.into_indexes();\n            leftover.truncate(256);\n            node.insert_singletons(leftover);")]),
('t3','P02',[(B,"            node.remove_children();\n            parameters","            node.remove_children();\n            node.set_radius(0.0);\n            parameters")]),
('t4','P03',[(B,"                    .insert_child((split_scale_index, new_close.center_index), new_close.len())?;\n                let new_node = BuilderNode {\n                    parent_address: Some(parent_address),","                    .insert_child((split_scale_index, new_close.center_index), new_close.len())?;\n                let new_node = BuilderNode {\n                    parent_address: Some((split_scale_index + 1, parent_address.1)),")]),
('t5','P03',[(L,".get_and(&pi, |n| n.children().map(|(si, c)| f((si, pi), c)))",".get_and(&pi, |n| n.children().map(|(_si, c)| f((self.scale_index - 1, pi), c)))")]),
('t6','P04',[(Q,"                if min_dist_update > node_to_visit.min_dist {\n                    node_to_visit.min_dist = min_dist_update;\n                    self.singleton_heap.push(node_to_visit);\n                } else {","                if min_dist_update > self.max_dist() {\n                    continue;\n                }\n                if min_dist_update > node_to_visit.min_dist {\n                    node_to_visit.min_dist = min_dist_update;\n                    self.singleton_heap.push(node_to_visit);\n                } else {")]),
('t7','P04 P05',[(Q,"        if self.len() < self.k {\n            std::f32::MAX","        if self.len() + 1 < self.k {\n            std::f32::MAX")]),
('t8','P04',[(N,"        let distances = point_cloud.distances_to_point(point, &self.singles_indexes[..])?;\n        query_heap.push_outliers(&self.singles_indexes[..], &distances[..]);","        let known = self.singles_indexes.len().min(128);\n        let distances = point_cloud.distances_to_point(point, &self.singles_indexes[..known])?;\n        query_heap.push_outliers(&self.singles_indexes[..], &distances[..]);")]),
('t9','P05',[(Q,"            if !self.known_indexes.contains(pi) {\n                self.known_indexes.insert(*pi);\n                match self.dist_heap.peek() {\n                    Some(my_dist) => {\n                        if !(my_dist.dist < *d && self.dist_heap.len() >= self.k) {\n                            self.dist_heap.push(QuerySingleton::new(*pi, *d));","            if emd < max_dist && !self.known_indexes.contains(pi) {\n                self.known_indexes.insert(*pi);\n                match self.dist_heap.peek() {\n                    Some(my_dist) => {\n                        if !(my_dist.dist < *d && self.dist_heap.len() >= self.k) {\n                            self.dist_heap.push(QuerySingleton::new(*pi, *d));")]),
('t10','P05',[(T,"        while self.greedy_knn_nodes(point, &mut query_heap) {}\n        Ok(query_heap.unpack())","        while query_heap.node_len() > 0 && query_heap.max_dist() > 0.0 && self.greedy_knn_nodes(point, &mut query_heap) {}\n        Ok(query_heap.unpack())")]),
('t11','P06',[(T,"                    parent = self.get_node_and(addr, |n| n.parent_address()).flatten();","                    parent = self\n                        .get_node_and(addr, |n| n.parent_address())\n                        .flatten()\n                        .filter(|p| p.0 > addr.0 && p.0 - addr.0 < 12);")]),
('t12','P06',[(N,"            let (min_index, min_dist) = distances\n                .iter()\n                .enumerate()\n","            let (min_index, min_dist) = distances\n                .iter()\n                .enumerate()\n                .take(64)\n")]),
('t13','P07',[(N,"        proto.set_radius(self.radius);","        proto.set_radius(self.radius.max(0.0));")]),
('t14','P07',[(T,"                    for singleton in n.singletons() {\n                        self.final_addresses.insert(*singleton, cur_add);\n                    }\n                    if let Some((nested_si, child_addresses)) = n.children() {","                    if let Some((nested_si, child_addresses)) = n.children() {")]),
('t15','P07',[(N,"                .map(|(si, pi)| (*si as i32, *pi as usize))\n                .collect();","                .map(|(si, pi)| (*si as i32, *pi as u16 as usize))\n                .collect();")]),
('t16','P07',[(N,"            .map(|i| *i as usize)\n            .collect();\n        let radius","            .map(|i| *i as usize)\n            .take(1024)\n            .collect();\n        let radius")]),
('u1','P08',[(W,"        if !self.first {\n            self.oplog.push(op);","        if !self.first {\n            if let (MonoOperation::Purge, 0) = (&op, self.swap_index) {\n                self.oplog.clear();\n            }\n            self.oplog.push(op);")]),
('u2','P08',[(W,"            for op in self.oplog.iter_mut() {\n                Self::apply_first(w_handle, op);\n            }","            for op in self.oplog.iter_mut().take(4096) {\n                Self::apply_first(w_handle, op);\n            }")]),
('v1','P09',[(CA,"                    if self.child_counts[index].1 < count {\n                        self.child_counts[index].1 = 0.0;\n                    } else {\n                        self.child_counts[index].1 -= count;\n                    }","                    if self.child_counts[index].1 <= count {\n                        self.child_counts.swap_remove(index);\n                    } else {\n                        self.child_counts[index].1 -= count;\n                    }")]),
('v2','P09',[(DI,"        self.add_child_pop(None, other.singleton_count);\n    }\n","        if !other.child_counts.is_empty() || self.child_counts.is_empty() {\n            self.add_child_pop(None, other.singleton_count);\n        }\n    }\n")]),
('v3','P10',[(CA,"                if *ca_count <= 0.0 {\n                    continue;\n                }\n","")]),
('v4','P10',[(DI,"            my_total_lng += ln_gamma(ca_count);\n            other_total_lng += ln_gamma(*other_ca_count + ca_count);\n            digamma_portion -= *other_ca_count * (digamma(ca_count) - digamma(my_total));","            my_total_lng += ln_gamma(ca_count);\n            other_total_lng += ln_gamma(*other_ca_count + ca_count);\n            if *other_ca_count > 0.5 {\n                digamma_portion -= other_ca_count.min(64.0) * (digamma(ca_count) - digamma(my_total));\n            }")]),
('w1','P11',[(TR,"        self.sequence_queue\n            .extend(other.sequence_queue.iter().cloned());","        for path in other.sequence_queue.iter().rev() {\n            self.sequence_queue.push_back(path.clone());\n        }")]),
('w2','P11',[(TR,"        if self.sequence_queue.is_empty() {\n            self.sequence_count\n        } else {\n            self.sequence_queue.len()\n        }","        if self.window_size == 0 {\n            self.sequence_count\n        } else {\n            self.sequence_count.min(self.window_size)\n        }")]),
('w3','P11',[(BL,"                    let weight = ((i - self.sequence_len[index - 1]) as f64)\n                        / ((self.sequence_len[index] - self.sequence_len[index - 1]) as f64);","                    let weight = ((i - self.sequence_len[index - 1]) as f64)\n                        / ((self.sequence_len[index] - self.sequence_len[0]) as f64);")]),
('w4','P11',[(TR,"                .or_insert_with(|| v.clone());","                .or_insert_with(Categorical::new);")]),
('x1','P12',[(PL,"            .label_summary(my_node.singletons())\n            .unwrap();","            .label_summary(&my_node.singletons()[..my_node.singletons_len().min(200)])\n            .unwrap();")]),
('x2','P12',[(DG,"                for ca in child_addresses {\n                    my_tree.get_node_plugin_and::<Self::NodeComponent, _, _>(*ca, |p| {\n                        my_dg.merge(p);","                for ca in child_addresses {\n                    if ca.0 != nested_scale {\n                        continue;\n                    }\n                    my_tree.get_node_plugin_and::<Self::NodeComponent, _, _>((nested_scale, ca.1), |p| {\n                        my_dg.merge(p);")]),
('x3','P12',[(CA,"            bucket.add_child_pop(None, my_node.singletons_len() as f64);\n        } else {","            if my_node.singletons_len() > 0 && !child_addresses.is_empty() {\n                bucket.add_child_pop(None, my_node.singletons_len() as f64);\n            }\n        } else {")]),
('y1','P13',[(DG,"            .for_each(|(m, p)| *m -= p * p);\n            self.count -= 1;","            .for_each(|(m, p)| *m = (*m - p * p).max(0.0));\n            self.count -= 1;")]),
('y2','P13',[(DG,"        self.count += other.count;\n    }\n\n    /// Mean","        if other.count > 1 || self.count == 0 {\n            self.count += other.count;\n        } else {\n            self.count += 1;\n        }\n    }\n\n    /// Mean")]),
('z1','P14',[(L2,"            while let Some((li, lv)) = l_tr {\n                if li < si {","            if let Some((li, lv)) = l_tr {\n                if li < si {")]),
('z2','P14',[(L2M,"            let mut d_acc_8 = f32x8::splat(0.0);\n            if y.len() > 8 {","            let mut d_acc_8 = f32x8::splat(0.0);\n            if y.len() >= 8 && x.len() > 8 {")]),
('z3','P14',[(L2,"        while let Some((_li, lv)) = l_tr {\n            total += *lv * *lv;\n            l_tr = long_iter.next();\n        }\n        total","        if let Some((_li, lv)) = l_tr {\n            total += *lv * *lv + long_iter.map(|(_, v)| v.abs()).sum::<f32>();\n        }\n        total")]),
('c1','P15',[(BT,"            let dist_iter = dists.par_chunks_mut(chunk);\n            let indexes_iter = indexes.par_chunks(chunk);","            let dist_iter = dists.par_chunks_mut(chunk);\n            let indexes_iter = indexes.par_chunks(chunk).rev().rev();\n            let indexes_iter = indexes_iter.take(64);")]),
('c2','P15',[(MM,"                self.data.len() / self.dim\n","                (self.data.len() + self.dim - 1) / self.dim\n")]),
('c3','P15',[(BT,"                    for (m, yy) in moment_vec.iter_mut().zip(y.dense_iter()) {\n                        *m += yy * yy;\n                    }\n                }\n                Err(e) => {\n                    return Err(e);","                    for (m, yy) in moment_vec.iter_mut().zip(y.dense_iter()) {\n                        *m += yy * yy;\n                    }\n                }\n                Err(e) => {\n                    if *i == 0 {\n                        continue;\n                    }\n                    return Err(e);")]),
('e1','P16',[(G,"            summary.add(self.data_sources[i].label(j));","            if i >= self.data_sources.len() {\n                continue;\n            }\n            summary.add(self.data_sources[i].label(j.min(*pn)));")]),
('e2','P16',[(G,"        let mut new_addresses = HashMap::with_hasher(FxBuildHasher::default());\n        for (old_index","        let mut new_addresses = self.addresses.clone();\n        for (old_index")]),
('f1','P17',[(SM,"            self.moment1.resize(other.moment1.len(), 0.0);\n            self.moment2.resize(other.moment2.len(), 0.0);\n        }\n","            *self = other.clone();\n            return;\n        }\n")]),
('f2','P17',[(SM,"                if val == stored_val {\n                    *totals += count;\n                    added_to_existing = true;\n                    break;\n                }","                if val == stored_val && *count > 0 {\n                    *totals += count;\n                    added_to_existing = true;\n                } else if *stored_val > *val && *totals == 0 {\n                    break;\n                }")]),
('f3','P18',[(LS,"            (Some(s_mask), Some(o_mask)) => s_mask.extend(o_mask),","            (Some(s_mask), Some(o_mask)) => s_mask.extend(o_mask.iter().take(other.labels.len()).map(|b| *b || o_mask.len() > 64)),")]),
('f4','P18',[(LS,"                    .filter(|(_i, x)| *x > &0.5)\n                    .map(|(i, _x)| i as i64)\n                    .next()","                    .filter(|(_i, x)| *x > &0.5)\n                    .map(|(i, _x)| i as i64)\n                    .last()")]),
('g1','P19',[(PT,"            if si == self.index {","            if si == self.index || si < self.index {")]),
('g2','P19',[(PT,"                    v[i] = (*xi).into();","                    v[i] += (*xi).into();")]),
('s1','P20',[(ST,"                if self.trackers.contains_key(&req.window_size) {","                if self.trackers.contains_key(&req.window_size) && req.window_size != 0 {")]),
('s2','P20',[(SV,"            let k = parse_knn_query(request.uri()).ok_or(GokoClientError::MalformedQuery(\"Unable to parse k.\"))?;\n            let point = parser.point(request).await?;\n            Ok(GokoRequest::RoutingKnn(RoutingKnnRequest { point, k }))","            let k = parse_knn_query(request.uri()).unwrap_or(10);\n            let point = parser.point(request).await?;\n            Ok(GokoRequest::RoutingKnn(RoutingKnnRequest { point, k: k.min(1000) }))")]),
('s3','P20',[(SP,"        self.request = req;\n        self.body_buffer.clear();\n        self.point_buffer.clear();","        self.request = req;\n        self.point_buffer.clear();")]),
('s4','P20',[(SP,"                        this.body_buffer.extend_from_slice(&new_bytes);","                        if this.body_buffer.len() + new_bytes.len() <= 8*1024 {\n                            this.body_buffer.extend_from_slice(&new_bytes);\n                        }")]),
('s5','P20',[(SD,"        scratch_buffer.clear();\n",""),(SP,"                this.body_buffer.clear();\n                this.point_buffer.clear();\n                *this.request = Request::default();\n                return Poll::Ready(point_res)","                this.body_buffer.clear();\n                *this.request = Request::default();\n                return Poll::Ready(point_res)"),(SP,"        self.body_buffer.clear();\n        self.point_buffer.clear();\n    }","        self.body_buffer.clear();\n    }")]),
('s6','P20',[(SV,"            let (tracker_name, _window_size) = parse_tracker_query(request.uri());","            let (tracker_name, _window_size) = parse_tracker_query(request.uri());\n            let tracker_name = tracker_name.filter(|n| n.len() < 32);")]),
]
