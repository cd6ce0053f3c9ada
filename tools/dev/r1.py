B='goko/src/covertree/builders.rs'; DC='goko/src/covertree/data_caches.rs'; N='goko/src/covertree/node.rs'; T='goko/src/covertree/tree.rs'
Q='goko/src/covertree/query_tools/knn_query_heap.rs'; W='goko/src/monomap/write.rs'; TR='goko/src/plugins/discrete/tracker.rs'
CA='goko/src/plugins/discrete/categorical.rs'; DG='goko/src/plugins/gaussians/diag_gaussian.rs'
G='pointcloud/src/glued_data_cloud.rs'; BT='pointcloud/src/base_traits.rs'; LS='pointcloud/src/label_sources/mod.rs'; SM='pointcloud/src/summaries/mod.rs'
PT='pointcloud/src/points/mod.rs'; L2='pointcloud/src/metrics/l2_f32.rs'; ST='serve_goko/src/api/tracker.rs'
OUT='''                match self.dist_heap.peek() {
                    Some(my_dist) => {
                        if !(my_dist.dist < *d && self.dist_heap.len() >= self.k) {
                            self.dist_heap.push(QuerySingleton::new(*i, *d));
                        }
                    }
                    None => self.dist_heap.push(QuerySingleton::new(*i, *d)),
                };
'''
NOD=OUT.replace('*i,','*pi,')
M=[
('r1','P04 P05',[(Q,OUT,'                self.offer(*i, *d);\n'),(Q,NOD,'                self.offer(*pi, *d);\n'),(Q,'''    /// The current number of points on the distance heap
    pub fn len''','''    fn offer(&mut self, index: usize, dist: f32) {
        let worse = match self.dist_heap.peek() {
            Some(furthest) => furthest.dist < dist && self.dist_heap.len() >= self.k,
            None => false,
        };
        if !worse {
            self.dist_heap.push(QuerySingleton::new(index, dist));
        }
    }

    /// The current number of points on the distance heap
    pub fn len''')]),
('r1b','P04',[(Q,'''            if !self.known_indexes.contains(i) {
                self.known_indexes.insert(*i);
''','''            if self.known_indexes.insert(*i) {
''')]),
('r1c','P04',[(Q,'''        let mut result = Vec::with_capacity(self.dist_heap.len());
        while let Some(el) = self.dist_heap.pop() {
            result.push((el.dist, el.index));
        }
        result.iter().rev().cloned().collect()''','''        let mut result = Vec::with_capacity(self.dist_heap.len());
        while let Some(el) = self.dist_heap.pop() {
            result.push((el.dist, el.index));
        }
        result.reverse();
        result''')]),
('r2','P01 P02',[(DC,'''        for (i, d) in self.coverage.iter().zip(&self.dists) {
            if *d < thresh {
                close_index.push(*i);
                close_dist.push(*d);
            } else {
                far.push(*i);
            }
        }''','''        for k in 0..self.coverage.len() {
            let i = self.coverage[k];
            let d = self.dists[k];
            if d >= thresh {
                far.push(i);
            } else {
                close_index.push(i);
                close_dist.push(d);
            }
        }''')]),
('r3','P01 P02',[(DC,'''            let (index, d) = self
                .dists
                .iter()
                .enumerate()
                .map(|(dist_index, dists)| (dist_index, dists[i]))
                .min_by(|(_di, d), (_ci, c)| d.partial_cmp(c).unwrap_or(Ordering::Equal))
                .unwrap_or((0, f32::MAX));
''','''            let (index, d) = self.nearest_center(i);
'''),(DC,'''    fn assign_to_nearest(''','''    fn nearest_center(&self, i: usize) -> (usize, f32) {
        self.dists
            .iter()
            .enumerate()
            .map(|(dist_index, dists)| (dist_index, dists[i]))
            .min_by(|(_di, d), (_ci, c)| d.partial_cmp(c).unwrap_or(Ordering::Equal))
            .unwrap_or((0, f32::MAX))
    }

    fn assign_to_nearest(''')]),
('r4','P02',[(DC,'''        self.center_dists
            .iter()
            .cloned()
            .fold(-1. / 0. /* -inf */, f32::max)''','''        let mut largest = std::f32::NEG_INFINITY;
        for d in &self.center_dists {
            largest = largest.max(*d);
        }
        largest''')]),
('r5','P13',[(DG,'''        self.moment1
            .iter_mut()
            .zip(point.dense_iter())
            .for_each(|(m, p)| *m += p);
        self.moment2
            .iter_mut()
            .zip(point.dense_iter())
            .for_each(|(m, p)| *m += p * p);
        self.count += 1;''','''        self.count += 1;
        for ((m1, m2), p) in self
            .moment1
            .iter_mut()
            .zip(self.moment2.iter_mut())
            .zip(point.dense_iter())
        {
            *m1 += p;
            *m2 += p * p;
        }''')]),
('r5b','P13',[(DG,'''        self.moment1
            .iter_mut()
            .zip(other.moment1.iter())
            .for_each(|(m, p)| *m += *p);
        self.moment2
            .iter_mut()
            .zip(other.moment2.iter())
            .for_each(|(m, p)| *m += *p);
        self.count += other.count;''','''        add_assign(&mut self.moment2, &other.moment2);
        add_assign(&mut self.moment1, &other.moment1);
        self.count += other.count;'''),(DG,'''impl DiagGaussian {
''','''fn add_assign(mine: &mut [f32], theirs: &[f32]) {
    for (m, p) in mine.iter_mut().zip(theirs) {
        *m += *p;
    }
}

impl DiagGaussian {
''')]),
('r6','P14',[(L2,'''            if let Some((li, lv)) = l_tr {
                if li == si {
                    let val = *sv - *lv;
                    total += val * val;
                    l_tr = long_iter.next();
                } else {
                    total += *sv * *sv;
                }
            } else {
                total += *sv * *sv;
            }''','''            match l_tr {
                Some((li, lv)) if li == si => {
                    let val = *sv - *lv;
                    total += val * val;
                    l_tr = long_iter.next();
                }
                _ => total += *sv * *sv,
            }''')]),
('r7','P16',[(G,'''        match self.addresses.get(&pn) {
            Some((i, j)) => Ok((*i, *j)),
            None => Err(PointCloudError::DataAccessError {
                index: pn,
                reason: "address not found".to_string(),
            }),
        }''','''        self.addresses
            .get(&pn)
            .copied()
            .ok_or_else(|| PointCloudError::DataAccessError {
                index: pn,
                reason: "address not found".to_string(),
            })''')]),
('r7b','P16',[(G,'''        self.data_sources.iter().fold(0, |acc, mm| acc + mm.len())''','''        self.data_sources.iter().map(|source| source.len()).sum()''')]),
('r8','P17',[(SM,'''        let mut added_to_existing = false;
        for (stored_val, totals) in self.items.iter_mut() {
            if val == stored_val {
                *totals += 1;
                added_to_existing = true;
                break;
            }
        }
        if !added_to_existing {
            self.items.push((*val, 1));
        }''','''        match self.items.iter_mut().find(|(stored, _)| stored == val) {
            Some((_, totals)) => *totals += 1,
            None => self.items.push((*val, 1)),
        }''')]),
('r9','P11',[(TR,'''            self.running_evidence
                .entry(*parent)
                .or_default()
                .add_child_pop(Some(*child), 1.0);''','''            self.count_visit(*parent, Some(*child));'''),(TR,'''        self.running_evidence
            .entry(last)
            .or_default()
            .add_child_pop(None, 1.0);''','''        self.count_visit(last, None);'''),(TR,'''    fn add_trace_to_pdfs(''','''    fn count_visit(&mut self, node: NodeAddress, child: Option<NodeAddress>) {
        self.running_evidence
            .entry(node)
            .or_default()
            .add_child_pop(child, 1.0);
    }

    fn add_trace_to_pdfs(''')]),
('r9b','P11',[(TR,'''        let parent_address_iter = trace.iter().map(|(_, ca)| ca);
        let mut child_address_iter = trace.iter().map(|(_, ca)| ca);
        child_address_iter.next();
        for (parent, child) in parent_address_iter.zip(child_address_iter) {
            self.running_evidence
                .entry(*parent)
                .or_default()
                .add_child_pop(Some(*child), 1.0);
        }''','''        for pair in trace.windows(2) {
            self.running_evidence
                .entry(pair[0].1)
                .or_default()
                .add_child_pop(Some(pair[1].1), 1.0);
        }''')]),
('r10','P11',[(TR,'''        self.add_trace_to_pdfs(&trace);
        self.sequence_count += 1;
        if self.window_size != 0 {''','''        self.sequence_count += 1;
        self.add_trace_to_pdfs(&trace);
        if self.window_size > 0 {''')]),
('r11','P09',[(CA,'''        match loc {
            Some(ca) => match self.child_counts.binary_search_by_key(&ca, |&(a, _)| a) {
                Ok(index) => self.child_counts[index].1 += count,
                Err(index) => self.child_counts.insert(index, (ca, count)),
            },
            None => self.singleton_count += count,
        }''','''        if let Some(ca) = loc {
            match self.child_counts.binary_search_by_key(&ca, |&(a, _)| a) {
                Ok(index) => {
                    let entry = &mut self.child_counts[index];
                    entry.1 += count;
                }
                Err(index) => self.child_counts.insert(index, (ca, count)),
            }
        } else {
            self.singleton_count += count;
        }''')]),
('r11b','P09',[(CA,'''                    if self.child_counts[index].1 < count {
                        self.child_counts[index].1 = 0.0;
                    } else {
                        self.child_counts[index].1 -= count;
                    }''','''                    let left = self.child_counts[index].1 - count;
                    self.child_counts[index].1 = left.max(0.0);''')]),
('r12','P10',[(CA,'''            let ln_total = my_total.ln() - other_total.ln();
            let mut sum: f64 = 0.0;''','''            let mut sum: f64 = 0.0;
            let ln_total = my_total.ln() - other_total.ln();'''),(CA,'''                if other_ca_count <= 0.0 {
                    return None;
                }
                sum += (ca_count / my_total) * (ca_count.ln() - other_ca_count.ln() - ln_total);''','''                if other_ca_count > 0.0 {
                    let p = ca_count / my_total;
                    sum += p * (ca_count.ln() - other_ca_count.ln() - ln_total);
                } else {
                    return None;
                }''')]),
('r13','P20',[(ST,'''                if self.trackers.contains_key(&req.window_size) {
                    Ok(TrackingResponse::AddTracker(AddTrackerResponse {
                        success: false,
                    }))
                } else {
                    self.trackers.insert(req.window_size, BayesCategoricalTracker::new(req.window_size, self.reader.clone()));
                    Ok(TrackingResponse::AddTracker(AddTrackerResponse {
                        success: true,
                    }))
                }''','''                let success = !self.trackers.contains_key(&req.window_size);
                if success {
                    let tracker = BayesCategoricalTracker::new(req.window_size, self.reader.clone());
                    self.trackers.insert(req.window_size, tracker);
                }
                Ok(TrackingResponse::AddTracker(AddTrackerResponse { success }))''')]),
('r14','P06',[(N,'''            if children.addresses.is_empty() || dist_to_center < *min_dist {
                if dist_to_center < scale_base.powi(children.nested_scale) {
                    Ok(Some((
                        dist_to_center,
                        (children.nested_scale, self.address.1),
                    )))
                } else {
                    Ok(None)
                }
            } else if *min_dist < scale_base.powi(children.addresses[min_index].0) {
                Ok(Some((*min_dist, children.addresses[min_index])))
            } else {
                Ok(None)
            }''','''            let (dist, address) =
                if children.addresses.is_empty() || dist_to_center < *min_dist {
                    (dist_to_center, (children.nested_scale, self.address.1))
                } else {
                    (*min_dist, children.addresses[min_index])
                };
            if dist < scale_base.powi(address.0) {
                Ok(Some((dist, address)))
            } else {
                Ok(None)
            }''')]),
('r15','P03 P01',[(B,'''                inserts.push(((split_scale_index, potential.center_index), potential.len()));

                let new_node = BuilderNode {
                    parent_address: Some(parent_address),
                    scale_index: split_scale_index,
                    covered: CoveredData::NearestCoveredData(potential),
                };
                new_nodes.push(new_node);
                parameters
                    .total_nodes
                    .fetch_add(1, atomic::Ordering::SeqCst);''','''                parameters
                    .total_nodes
                    .fetch_add(1, atomic::Ordering::SeqCst);
                inserts.push(((split_scale_index, potential.center_index), potential.len()));
                new_nodes.push(BuilderNode {
                    parent_address: Some(parent_address),
                    scale_index: split_scale_index,
                    covered: CoveredData::NearestCoveredData(potential),
                });''')]),
('r16','P07',[(N,'''        match self.parent_address {
            Some(parent_address) => {
                proto.set_parent_scale_index(parent_address.0);
                proto.set_parent_center_index(parent_address.1 as u64);
            }
            None => {
                proto.set_parent_scale_index(std::i32::MIN);
                proto.set_parent_center_index(std::u64::MAX);
            }
        }
''','''        let (parent_si, parent_pi) = match self.parent_address {
            Some((si, pi)) => (si, pi as u64),
            None => (std::i32::MIN, std::u64::MAX),
        };
        proto.set_parent_scale_index(parent_si);
        proto.set_parent_center_index(parent_pi);
''')]),
('r16b','P07',[(N,'''                proto.set_children_scale_indexes(
                    children.addresses.iter().map(|(si, _pi)| *si).collect(),
                );
                proto.set_children_point_indexes(
                    children
                        .addresses
                        .iter()
                        .map(|(_si, pi)| *pi as u64)
                        .collect(),
                );''','''                let mut scales = Vec::with_capacity(children.addresses.len());
                let mut points = Vec::with_capacity(children.addresses.len());
                for (si, pi) in children.addresses.iter() {
                    scales.push(*si);
                    points.push(*pi as u64);
                }
                proto.set_children_scale_indexes(scales);
                proto.set_children_point_indexes(points);''')]),
('r17','P08',[(W,'''            // the w_handle map is about to become the r_handle, and can ignore the oplog
            self.swap_index = self.oplog.len();
            // ensure meta-information is up to date
            w_handle.meta = self.meta.clone();
            w_handle.mark_ready();
''','''            // ensure meta-information is up to date
            w_handle.meta = self.meta.clone();
            w_handle.mark_ready();
            // the w_handle map is about to become the r_handle, and can ignore the oplog
            self.swap_index = self.oplog.len();
''')]),
('r18','P18',[(LS,'''        if let Some(mask) = &self.mask {
            if mask[pn] {
                Ok(self.labels.get(pn))
            } else {
                Ok(None)
            }
        } else {
            Ok(self.labels.get(pn))
        }
    }
    fn label_summary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<Self::LabelSummary>> {
        let mut summary = CategorySummary::default();''','''        match &self.mask {
            Some(mask) if !mask[pn] => Ok(None),
            _ => Ok(self.labels.get(pn)),
        }
    }
    fn label_summary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<Self::LabelSummary>> {
        let mut summary = CategorySummary::default();''')]),
('r19','P19',[(PT,'''            if si == self.index {
                let val = unsafe { *self.raw.values_ptr.add(self.sparse_index) };
                self.sparse_index += 1;
                self.index += 1;

                Some(val.into())
            } else if self.index < dim {
                self.index += 1;
                Some(0.0)
            } else {
                None
            }''','''            let stored = si == self.index;
            self.index += 1;
            if stored {
                let val = unsafe { *self.raw.values_ptr.add(self.sparse_index) };
                self.sparse_index += 1;
                Some(val.into())
            } else {
                Some(0.0)
            }''')]),
('r20','P15',[(BT,'''            indexes
                .iter()
                .map(|i| {
                    let y = self.point(*i)?;
                    Ok(Self::Metric::dist(&x, &y))
                })
                .collect()''','''            let mut dists = Vec::with_capacity(len);
            for i in indexes {
                let y = self.point(*i)?;
                dists.push(Self::Metric::dist(&x, &y));
            }
            Ok(dists)''')]),
]
