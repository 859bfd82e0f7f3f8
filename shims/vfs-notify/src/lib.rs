//! Stand-in for rust-analyzer's `vfs-notify`: loads the configured entries on a thread of its
//! own. It does not watch the file system (no notify backend in the sandbox); `invalidate` and
//! client-side didChangeWatchedFiles are the only triggers of re-reads.
use std::fs;

use crossbeam_channel::{unbounded, Receiver, Sender};
use paths::{AbsPath, AbsPathBuf, Utf8PathBuf};
use vfs::loader::{self, LoadingProgress};
use walkdir::WalkDir;

#[derive(Debug)]
pub struct NotifyHandle {
    sender: Sender<Message>,
    _thread: stdx::thread::JoinHandle,
}

#[derive(Debug)]
enum Message {
    Config(loader::Config),
    Invalidate(AbsPathBuf),
}

impl loader::Handle for NotifyHandle {
    fn spawn(sender: loader::Sender) -> NotifyHandle {
        let actor = NotifyActor { sender };
        let (sender, receiver) = unbounded::<Message>();
        let thread = stdx::thread::Builder::new(stdx::thread::ThreadIntent::Worker, "VfsLoader")
            .spawn(move || actor.run(receiver))
            .expect("failed to spawn thread");
        NotifyHandle { sender, _thread: thread }
    }
    fn set_config(&mut self, config: loader::Config) {
        self.sender.send(Message::Config(config)).unwrap();
    }
    fn invalidate(&mut self, path: AbsPathBuf) {
        self.sender.send(Message::Invalidate(path)).unwrap();
    }
    fn load_sync(&mut self, path: &AbsPath) -> Option<Vec<u8>> {
        read(path)
    }
}

struct NotifyActor {
    sender: loader::Sender,
}

impl NotifyActor {
    fn run(self, inbox: Receiver<Message>) {
        for msg in inbox {
            match msg {
                Message::Config(config) => {
                    let config_version = config.version;
                    let n_total = config.load.len();
                    self.send(loader::Message::Progress {
                        n_total,
                        n_done: LoadingProgress::Started,
                        config_version,
                        dir: None,
                    });
                    for (i, entry) in config.load.into_iter().enumerate() {
                        let files = Self::load_entry(entry);
                        self.send(loader::Message::Loaded { files });
                        self.send(loader::Message::Progress {
                            n_total,
                            n_done: LoadingProgress::Progress(i + 1),
                            config_version,
                            dir: None,
                        });
                    }
                    self.send(loader::Message::Progress {
                        n_total,
                        n_done: LoadingProgress::Finished,
                        config_version,
                        dir: None,
                    });
                }
                Message::Invalidate(path) => {
                    let contents = read(path.as_path());
                    let files = vec![(path, contents)];
                    self.send(loader::Message::Changed { files });
                }
            }
        }
    }

    fn load_entry(entry: loader::Entry) -> Vec<(AbsPathBuf, Option<Vec<u8>>)> {
        match entry {
            loader::Entry::Files(files) => {
                files.into_iter().map(|file| { let c = read(&file); (file, c) }).collect()
            }
            loader::Entry::Directories(dirs) => {
                let mut res = Vec::new();
                for root in &dirs.include {
                    let walkdir =
                        WalkDir::new(AsRef::<std::path::Path>::as_ref(root)).follow_links(true).into_iter().filter_entry(|entry| {
                            if !entry.file_type().is_dir() {
                                return true;
                            }
                            let Some(path) = to_abs(entry.path()) else { return false };
                            let path = &path;
                            root == path
                                || dirs.exclude.iter().chain(&dirs.include).all(|it| it != path)
                        });
                    for entry in walkdir.flatten() {
                        let depth_ok = entry.file_type().is_file();
                        if !depth_ok {
                            continue;
                        }
                        let Some(abs_path) = to_abs(entry.path()) else { continue };
                        let ext = abs_path.extension().unwrap_or_default();
                        if dirs.extensions.iter().all(|it| it.as_str() != ext) {
                            continue;
                        }
                        let contents = read(&abs_path);
                        res.push((abs_path, contents));
                    }
                }
                res
            }
        }
    }

    fn send(&self, msg: loader::Message) {
        let _ = self.sender.send(msg);
    }
}

fn to_abs(p: &std::path::Path) -> Option<AbsPathBuf> {
    let p = Utf8PathBuf::from_path_buf(p.to_path_buf()).ok()?;
    AbsPathBuf::try_from(p).ok()
}

fn read(path: &AbsPath) -> Option<Vec<u8>> {
    fs::read(path).ok()
}
