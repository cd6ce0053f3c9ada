R='goko/src/monomap/read.rs'; W='goko/src/monomap/write.rs'
M=[
('c1','P08',[(W,"        self.wait(&mut epochs);\n\n        {","        {"),(W,"            // the w_handle map is about to become the r_handle, and can ignore the oplog\n","            // the w_handle map is about to become the r_handle, and can ignore the oplog\n            let _ = &epochs;\n"),(W,"        // prepare w_handle\n","        self.wait(&mut epochs);\n        // prepare w_handle\n")]),
('c2','P08',[(W,"        // swap in our w_handle, and get r_handle in return\n","        for (i, epoch) in epochs.iter().enumerate() {\n            self.last_epochs[i] = epoch.load(atomic::Ordering::Acquire);\n        }\n        // swap in our w_handle, and get r_handle in return\n"),(W,"        atomic::fence(atomic::Ordering::SeqCst);\n\n        for (i, epoch) in epochs.iter().enumerate() {\n            self.last_epochs[i] = epoch.load(atomic::Ordering::Acquire);\n        }\n\n        // NOTE: at this","        atomic::fence(atomic::Ordering::SeqCst);\n\n        // NOTE: at this")]),
('c5','P08',[(R,"let _guard = RestoreParity(&self.epoch, epoch);","let _ = RestoreParity(&self.epoch, epoch);")]),
('c6','P08',[(R,"        MonoReadHandle::new(\n            sync::Arc::clone(&self.inner),\n            sync::Arc::clone(&self.epochs),\n        )\n    }\n}\n\npub(crate)","        MonoReadHandle {\n            epochs: sync::Arc::clone(&self.epochs),\n            epoch: sync::Arc::clone(&self.epoch),\n            my_epoch: atomic::AtomicUsize::new(self.my_epoch.load(atomic::Ordering::Relaxed)),\n            inner: sync::Arc::clone(&self.inner),\n            _not_sync_no_feature: PhantomData,\n        }\n    }\n}\n\npub(crate)")]),
('c7','P08',[(W,"starti = i;","starti = i + 1;")]),
('c8','P08',[(W,"| (now == 0)","| (now == 0) | (iter == 20)")]),
('c9','P08',[(W,"self.swap_index = self.oplog.len();","self.swap_index = self.oplog.len() - usize::from(self.oplog.len() > 64);")]),
('c10','P08',[(R,"(self.1 + 1) | 1usize","self.1 | 1usize")]),
]
