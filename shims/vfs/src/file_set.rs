use std::{collections::HashMap, fmt};

use crate::{AnchoredPath, FileId, Vfs, VfsPath};

#[derive(Default, Clone, Eq, PartialEq)]
pub struct FileSet {
    files: HashMap<VfsPath, FileId, rustc_hash::FxBuildHasher>,
    paths: HashMap<FileId, VfsPath, rustc_hash::FxBuildHasher>,
}

impl FileSet {
    pub fn len(&self) -> usize {
        self.files.len()
    }
    pub fn is_empty(&self) -> bool {
        self.files.is_empty()
    }
    pub fn resolve_path(&self, path: AnchoredPath<'_>) -> Option<FileId> {
        let mut base = self.paths[&path.anchor].clone();
        base.pop();
        let path = base.join(path.path)?;
        self.files.get(&path).copied()
    }
    pub fn file_for_path(&self, path: &VfsPath) -> Option<&FileId> {
        self.files.get(path)
    }
    pub fn path_for_file(&self, file: &FileId) -> Option<&VfsPath> {
        self.paths.get(file)
    }
    pub fn insert(&mut self, file_id: FileId, path: VfsPath) {
        self.files.insert(path.clone(), file_id);
        self.paths.insert(file_id, path);
    }
    pub fn iter(&self) -> impl Iterator<Item = FileId> + '_ {
        self.paths.keys().copied()
    }
}

impl fmt::Debug for FileSet {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("FileSet").field("n_files", &self.files.len()).finish()
    }
}

#[derive(Debug)]
pub struct FileSetConfig {
    n_file_sets: usize,
    roots: Vec<(VfsPath, usize)>,
}

impl Default for FileSetConfig {
    fn default() -> Self {
        FileSetConfig::builder().build()
    }
}

impl FileSetConfig {
    pub fn builder() -> FileSetConfigBuilder {
        FileSetConfigBuilder::default()
    }
    pub fn partition(&self, vfs: &Vfs) -> Vec<FileSet> {
        let mut res = vec![FileSet::default(); self.len()];
        for (file_id, path) in vfs.iter() {
            let root = self.classify(path);
            res[root].insert(file_id, path.clone());
        }
        res
    }
    fn len(&self) -> usize {
        self.n_file_sets
    }
    pub fn roots(&self) -> Vec<(Vec<u8>, u64)> {
        self.roots.iter().map(|(p, i)| (p.to_string().into_bytes(), *i as u64)).collect()
    }
    /// The set of the longest root that is a path prefix of `path`; the last set when none is.
    fn classify(&self, path: &VfsPath) -> usize {
        let mut best: Option<(usize, usize)> = None;
        for (root, set) in &self.roots {
            if path.starts_with(root) {
                let len = root.to_string().len();
                if best.map_or(true, |(b, _)| len > b) {
                    best = Some((len, *set));
                }
            }
        }
        best.map_or(self.len() - 1, |(_, s)| s)
    }
}

#[derive(Default)]
pub struct FileSetConfigBuilder {
    roots: Vec<Vec<VfsPath>>,
}

impl FileSetConfigBuilder {
    pub fn len(&self) -> usize {
        self.roots.len()
    }
    pub fn is_empty(&self) -> bool {
        self.roots.is_empty()
    }
    pub fn add_file_set(&mut self, roots: Vec<VfsPath>) {
        self.roots.push(roots);
    }
    pub fn build(self) -> FileSetConfig {
        let n_file_sets = self.roots.len() + 1;
        let mut roots: Vec<(VfsPath, usize)> = self
            .roots
            .into_iter()
            .enumerate()
            .flat_map(|(i, paths)| paths.into_iter().map(move |p| (p, i)))
            .collect();
        roots.sort();
        // like the upstream fst map: one value per key (first after sorting)
        roots.dedup_by(|a, b| a.0 == b.0);
        FileSetConfig { n_file_sets, roots }
    }
}
