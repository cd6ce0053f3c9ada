import sys
R=sys.argv[1]; which=sys.argv[2]
def ed(f,a,b):
    p=R+'/'+f; s=open(p).read(); assert s.count(a)==1,(f,s.count(a)); open(p,'w').write(s.replace(a,b))
if which in('nested','both'):
    ed('goko/src/monomap/read.rs','''        // in all cases, using a pointer we read *after* updating our epoch is safe.

''','''        // in all cases, using a pointer we read *after* updating our epoch is safe.

        // a read inside another read of this handle is covered by the epoch the outer one has
        // announced. that epoch has to stay as it is until the outer read is over.
        let high_bit = 1usize << (mem::size_of::<usize>() * 8 - 1);
        let announced = self.epoch.load(atomic::Ordering::Relaxed);
        if announced != 0 && announced & high_bit == 0 {
            let r_handle = self.inner.load(atomic::Ordering::Acquire);
            return unsafe { r_handle.as_ref().map(f) };
        }

''')
if which in('drop','both'):
    ed('goko/src/monomap/write.rs','''        let mut epochs = epochs.lock().unwrap();
        self.wait(&mut epochs);

        // ensure that the subsequent epoch reads aren't re-ordered to before the swap
        atomic::fence(atomic::Ordering::SeqCst);

        let w_handle''','''        let mut epochs = epochs.lock().unwrap();

        // ensure that the subsequent epoch reads aren't re-ordered to before the swap
        atomic::fence(atomic::Ordering::SeqCst);

        // the epochs noted by the last refresh say nothing about the reads that began since
        self.last_epochs.resize(epochs.len(), 0);
        for (i, epoch) in epochs.iter().enumerate() {
            self.last_epochs[i] = epoch.load(atomic::Ordering::Acquire);
        }
        self.wait(&mut epochs);

        let w_handle''')
