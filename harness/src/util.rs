use rand::Rng;

pub fn pick<'a, T, R: Rng>(rng: &mut R, v: &'a [T]) -> &'a T {
    &v[rng.gen_range(0..v.len())]
}

pub fn rnd_bytes<R: Rng>(rng: &mut R, len: usize) -> Vec<u8> {
    (0..len).map(|_| rng.gen()).collect()
}

pub fn rnd_string<R: Rng>(rng: &mut R, len: usize) -> String {
    const CH: &[char] = &[
        'a', 'b', 'z', 'A', '0', '9', ' ', '\n', '\t', ':', '-', '{', '}', '"', '\'', '#', '&',
        '*', '!', '|', '>', '%', '@', '\u{e9}', '\u{4e16}', '\u{1F600}', '\u{0}', '\u{7f}',
        '\u{feff}', '\u{2028}', '\\', '/', '.', '~',
    ];
    (0..len).map(|_| CH[rng.gen_range(0..CH.len())]).collect()
}

/// A scratch directory which is removed when dropped.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Self {
        let p = std::env::temp_dir().join(format!(
            "mon-{}-{:016x}",
            std::process::id(),
            rand::random::<u64>()
        ));
        std::fs::create_dir_all(&p).unwrap();
        Self(p)
    }
    pub fn path(&self) -> String {
        self.0.to_str().unwrap().to_string()
    }
    pub fn sub(&self, name: &str) -> String {
        self.0.join(name).to_str().unwrap().to_string()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        if self.0.starts_with(std::env::temp_dir()) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

/// Calls f; None if it panicked (the panic is recorded by the hook).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
