//! Analysis hosts over in-memory packages.
use base_db::change::FileChanges;
use base_db::inputs::PackageMetadata;
use base_db::package_root::{PackageKind, PackageRoot};
use ide::{Analysis, AnalysisHost};
use lang::builtins_file::BUILTINS_FILE;
use std::collections::HashMap;
use std::sync::Arc;
use vfs::file_set::FileSet;
use vfs::{FileId, VfsPath};

pub const BUILTINS: FileId = FileId::from_raw(0);

/// One package: its files by path, its manifest, what it depends on (indices of packages).
#[derive(Clone, Debug, Default)]
pub struct Package {
    pub name: String,
    pub library: bool,
    pub deps: Vec<usize>,
    pub addresses: Vec<(String, String)>,
    pub missing: Vec<String>,
    /// (path below the package, text)
    pub files: Vec<(String, String)>,
}

pub struct World {
    pub host: AnalysisHost,
    /// in order of packages and files
    pub files: Vec<(String, FileId)>,
}

pub fn host_with_builtins() -> AnalysisHost {
    let mut changes = FileChanges::new();
    changes.add_builtins_file(BUILTINS, BUILTINS_FILE.to_string());
    let mut host = AnalysisHost::new();
    host.apply_change(changes);
    host
}

/// Files of no package: as in the server, where the built-in module's file is one.
fn rest() -> PackageRoot {
    let mut set = FileSet::default();
    set.insert(BUILTINS, VfsPath::new_virtual_path("/builtins.move".to_owned()));
    PackageRoot::new(set, PackageKind::Library, None)
}

impl World {
    /// A file on its own, outside of any package with a manifest.
    pub fn single(text: &str) -> World {
        let mut host = host_with_builtins();
        let id = FileId::from_raw(1);
        let mut set = FileSet::default();
        set.insert(id, VfsPath::new_virtual_path("/main.move".to_owned()));
        let mut c = FileChanges::new();
        c.set_package_roots(vec![PackageRoot::new(set, PackageKind::Local, None), rest()]);
        c.change_file(id, Some(text.to_string()));
        host.apply_change(c);
        World { host, files: vec![("/main.move".to_string(), id)] }
    }

    pub fn packages(pkgs: &[Package]) -> World {
        let mut host = host_with_builtins();
        let l = Layout::of(pkgs);
        host.apply_change(l.change(pkgs, None));
        World { host, files: l.files.iter().map(|((_, p), id)| (p.clone(), *id)).collect() }
    }

    pub fn analysis(&self) -> Analysis {
        self.host.analysis()
    }
    pub fn main(&self) -> FileId {
        self.files[0].1
    }
}

/// Stable file numbers: a path keeps its number for as long as the layout lives.
#[derive(Clone, Debug, Default)]
pub struct Layout {
    ids: HashMap<String, FileId>,
    next: u32,
    /// ((package, path), id) of the files now present
    pub files: Vec<((usize, String), FileId)>,
}

impl Layout {
    pub fn of(pkgs: &[Package]) -> Layout {
        let mut l = Layout { ids: HashMap::new(), next: 1, files: vec![] };
        l.refresh(pkgs);
        l
    }
    pub fn id(&mut self, path: &str) -> FileId {
        if let Some(x) = self.ids.get(path) {
            return *x;
        }
        let id = FileId::from_raw(self.next);
        self.next += 1;
        self.ids.insert(path.to_string(), id);
        id
    }
    pub fn path(p: &Package, f: &str) -> String {
        format!("/w/{}/{}", p.name, f)
    }
    pub fn manifest(&mut self, p: &Package) -> FileId {
        self.id(&format!("/w/{}/Move.toml", p.name))
    }
    pub fn refresh(&mut self, pkgs: &[Package]) {
        self.files.clear();
        for (i, p) in pkgs.iter().enumerate() {
            self.manifest(p);
            for (f, _) in &p.files {
                let path = Layout::path(p, f);
                let id = self.id(&path);
                self.files.push(((i, path), id));
            }
        }
    }
    /// The change that loads the packages from nothing, texts limited to `only` if given.
    pub fn change(&self, pkgs: &[Package], only: Option<&dyn Fn(FileId) -> bool>) -> FileChanges {
        let mut l = self.clone();
        l.refresh(pkgs);
        let mut c = FileChanges::new();
        let mut graph = HashMap::new();
        let mut roots = vec![];
        let manifests: Vec<FileId> = pkgs.iter().map(|p| l.manifest(p)).collect();
        let texts: HashMap<FileId, &str> = l
            .files
            .iter()
            .map(|((i, path), id)| {
                let p = &pkgs[*i];
                let t = p.files.iter().find(|(f, _)| Layout::path(p, f) == *path).unwrap();
                (*id, t.1.as_str())
            })
            .collect();
        for (i, p) in pkgs.iter().enumerate() {
            let mut set = FileSet::default();
            set.insert(manifests[i], VfsPath::new_real_path(format!("/w/{}/Move.toml", p.name)));
            for ((k, path), id) in &l.files {
                if *k == i {
                    set.insert(*id, VfsPath::new_real_path(path.clone()));
                }
            }
            roots.push(PackageRoot::new(set, if p.library { PackageKind::Library } else { PackageKind::Local }, Some(manifests[i])));
            graph.insert(
                manifests[i],
                PackageMetadata {
                    package_name: Some(p.name.clone()),
                    dep_manifest_ids: Arc::new(p.deps.iter().map(|d| manifests[*d]).collect()),
                    resolve_deps: true,
                    named_addresses: p.addresses.clone(),
                    missing_dependencies: p.missing.clone(),
                },
            );
        }
        roots.push(rest());
        c.set_package_roots(roots);
        c.set_package_graph(graph);
        for m in &manifests {
            if only.is_none_or(|f| f(*m)) {
                c.change_file(*m, Some("[package]\nname = \"x\"\n".to_string()));
            }
        }
        for (_, id) in &l.files {
            if only.is_none_or(|f| f(*id)) {
                c.change_file(*id, Some(texts[id].to_string()));
            }
        }
        c
    }
}
