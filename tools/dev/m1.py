B='goko/src/covertree/builders.rs'; DC='goko/src/covertree/data_caches.rs'; N='goko/src/covertree/node.rs'; T='goko/src/covertree/tree.rs'; L='goko/src/covertree/layer.rs'
Q='goko/src/covertree/query_tools/knn_query_heap.rs'; W='goko/src/monomap/write.rs'; TR='goko/src/plugins/discrete/tracker.rs'
G='pointcloud/src/glued_data_cloud.rs'; BT='pointcloud/src/base_traits.rs'
M=[
('a1','P01',[(DC,"if self.center_dists[i] < d {\n                new_center_coverage.add_point(*pi, self.center_dists[i]);\n            } else {","if self.center_dists[i] < d {\n                new_center_coverage.add_point(*pi, self.center_dists[i]);\n            } else if d < f32::MAX / 2.0 {")]),
('a2','P01 P02',[(DC,"            if *d < radius {\n                close_index.push(*i);","            if *d <= radius {\n                close_index.push(*i);")]),
('a3','P01',[(B,"            node.insert_singletons(new_nodes.pop().unwrap().covered.into_indexes());","            new_nodes.pop();")]),
('a4','P01',[(N,"        self.coverage_count += addresses.len();\n        self.singles_indexes.extend(addresses);","        self.singles_indexes.extend(addresses);\n        self.coverage_count = self.singles_indexes.len() + 1;")]),
('a5','P02',[(DC,"                .for_each(|(a, d)| *a = *a || (d < &radius));","                .for_each(|(a, d)| *a = *a || (d <= &radius));")]),
('a6','P02',[(B,"        let radius = self.covered.max_distance();\n        node.set_radius(radius);","        let radius = self.covered.max_distance();\n        node.set_radius(radius.min(parameters.scale_base.powi(scale_index)));")]),
('a7','P02',[(B,"                    radius.log(parameters.scale_base).ceil() as i32,\n                    parameters.min_res_index,\n                ),\n            );","                    radius.log(parameters.scale_base).floor() as i32,\n                    parameters.min_res_index,\n                ),\n            );")]),
('a8','P03',[(T,"            ..(self.layers.len() as i32 + self.parameters.min_res_index - 1))\n            .zip","            ..(self.layers.len() as i32 + self.parameters.min_res_index))\n            .zip")]),
('a9','P03',[(T,"(self.parameters.min_res_index)\n            ..(self.parameters.min_res_index - 1 + self.layers.len() as i32)","(self.parameters.min_res_index)\n            ..(self.parameters.min_res_index + self.layers.len() as i32)")]),
('b1','P04',[(Q,"                    Some(my_dist) => {\n                        if !(my_dist.dist < *d && self.dist_heap.len() >= self.k) {\n                            self.dist_heap.push(QuerySingleton::new(*i, *d));","                    Some(my_dist) => {\n                        if !(my_dist.dist < *d && self.dist_heap.len() + 1 >= self.k) {\n                            self.dist_heap.push(QuerySingleton::new(*i, *d));")]),
('b2','P04',[(T,"                n.singleton_knn(point, &self.parameters.point_cloud, &mut query_heap)\n            });\n            self.greedy_knn_nodes(point, &mut query_heap);","                n.singleton_knn(point, &self.parameters.point_cloud, &mut query_heap)\n            });\n            if query_heap.len() < k {\n                self.greedy_knn_nodes(point, &mut query_heap);\n            }")]),
('b3','P04',[(Q,"            let emd = (d - self.scale_base.powi(*si)).max(0.0);\n            parent_est_dist_update = emd.max(parent_est_dist_update);\n            if emd < max_dist {","            let emd = (d - self.scale_base.powi(*si)).max(0.0);\n            parent_est_dist_update = emd.max(parent_est_dist_update);\n            if emd < max_dist && *d < f32::MAX {\n                if self.known_indexes.len() > 4 * self.k && emd > 0.9 * max_dist {\n                    continue;\n                }")]),
('b4','P05',[(Q,"            if !self.known_indexes.contains(pi) {\n                self.known_indexes.insert(*pi);\n                match self.dist_heap.peek() {\n                    Some(my_dist) => {\n                        if !(my_dist.dist < *d && self.dist_heap.len() >= self.k) {\n                            self.dist_heap.push(QuerySingleton::new(*pi, *d));","            if !self.known_indexes.contains(pi) {\n                self.known_indexes.insert(*pi);\n                match self.dist_heap.peek() {\n                    Some(my_dist) => {\n                        if !(my_dist.dist <= *d && self.dist_heap.len() >= self.k / 2 + 1) {\n                            self.dist_heap.push(QuerySingleton::new(*pi, *d));")]),
('b5','P06',[(N,"            for (ca, d) in children.addresses.iter().zip(distances) {\n                if d < scale_base.powi(ca.0) {","            for (ca, d) in children.addresses.iter().zip(distances) {\n                if d <= scale_base.powi(ca.0) {")]),
('b6','P06',[(N,"if children.addresses.is_empty() || dist_to_center < *min_dist {","if children.addresses.is_empty() || dist_to_center <= *min_dist {")]),
('b7','P06',[(T,"                    parent = self.get_node_and(addr, |n| n.parent_address()).flatten();","                    parent = self.get_node_and(addr, |n| n.parent_address()).flatten();\n                    if parent == Some(self.root_address) && path.len() > 40 {\n                        parent = None;\n                    }")]),
('c1','P07',[(N,"            let nested_scale = node_proto.get_nested_scale_index() as i32;","            let nested_scale = (node_proto.get_nested_scale_index() as i32).max(-100);")]),
('c2','P07',[(N,"if parent_scale_index == std::i32::MIN && parent_center_index == std::u64::MAX {","if parent_scale_index == std::i32::MIN || parent_center_index == std::u64::MAX {")]),
('d1','P08',[(W,"        self.second = self.first;\n        self.first = false;","        self.second = self.first && !self.oplog.is_empty();\n        self.first = false;")]),
('d2','P08',[(W,"            self.swap_index = self.oplog.len();\n            // ensure","            self.swap_index = if self.second { 0 } else { self.oplog.len() };\n            // ensure")]),
('d3','P08',[(W,"        &self.oplog[self.swap_index..]","        &self.oplog[self.swap_index.saturating_sub(1)..]")]),
('e1','P11',[(TR,"            if self.sequence_queue.len() > self.window_size {\n                let oldest","            if self.sequence_queue.len() >= self.window_size && self.window_size > 8 || self.sequence_queue.len() > self.window_size {\n                let oldest")]),
('e2','P11',[(TR,"            if parent_evidence.total() <= 0.0 {","            if parent_evidence.total() <= 1.0 {")]),
('e3','P11',[(TR,"                if *kl < min {\n                    min = *kl;\n                }\n","                else if *kl < min {\n                    min = *kl;\n                }\n")]),
('f1','P12',[('goko/src/plugins/utils.rs',"            } else {\n                indexes.push(*my_node.center_index());\n            }","            } else if indexes.len() != 1 {\n                indexes.push(*my_node.center_index());\n            }")]),
('g1','P15',[(BT,"                            Err(e) => {\n                                *error.lock().unwrap() = Err(e);\n                            }\n                        }\n                    }\n                });\n            (error.into_inner().unwrap())?;\n            Ok(dists)\n        } else {\n            indexes","                            Err(_e) => {\n                                *d = f32::MAX;\n                            }\n                        }\n                    }\n                });\n            (error.into_inner().unwrap())?;\n            Ok(dists)\n        } else {\n            indexes")]),
('g2','P15',[(BT,"                self.indexes.binary_search(&(j, i))","                self.indexes.binary_search(&(j, i)).or_else(|_| self.indexes.binary_search(&(i, i)))")]),
('h1','P16',[(G,"                    return Err(PointCloudError::DataAccessError {\n                        index: *old_index,","                    self.addresses = new_addresses;\n                    return Err(PointCloudError::DataAccessError {\n                        index: *old_index,")]),
('h2','P16',[(G,"                    if *addr == (i, j) {","                    if addr.1 == j && addr.0 >= i {")]),
]
