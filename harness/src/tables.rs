//! Code tables, written from KeePass (PwIcon, AutoTypeObfuscationOptions, PwDefs).
use kpdb::*;

/// Icons in the order of KeePass's PwIcon, whose first value is 0.
pub const ICONS: [Icon; 69] = [
    Icon::Key,
    Icon::World,
    Icon::Warning,
    Icon::Server,
    Icon::MarkedDirectory,
    Icon::UserCommunication,
    Icon::Parts,
    Icon::Notepad,
    Icon::WorldSocket,
    Icon::Identity,
    Icon::PaperReady,
    Icon::Digicam,
    Icon::IRCommunication,
    Icon::MultipleKeys,
    Icon::Energy,
    Icon::Scanner,
    Icon::WorldStar,
    Icon::CDRom,
    Icon::Monitor,
    Icon::Email,
    Icon::Configuration,
    Icon::ClipboardReady,
    Icon::PaperNew,
    Icon::Screen,
    Icon::EnergyCareful,
    Icon::Inbox,
    Icon::Disk,
    Icon::Drive,
    Icon::QuickTime,
    Icon::EncryptedTerminal,
    Icon::Console,
    Icon::Printer,
    Icon::Icons,
    Icon::Run,
    Icon::Settings,
    Icon::WorldComputer,
    Icon::Archive,
    Icon::Banking,
    Icon::Smb,
    Icon::Clock,
    Icon::EmailSearch,
    Icon::PaperFlag,
    Icon::Memory,
    Icon::RecycleBin,
    Icon::Note,
    Icon::Expired,
    Icon::Info,
    Icon::Package,
    Icon::Folder,
    Icon::FolderOpen,
    Icon::FolderPackage,
    Icon::LockOpen,
    Icon::PaperLocked,
    Icon::Checked,
    Icon::Pen,
    Icon::Thumbnail,
    Icon::Book,
    Icon::Listing,
    Icon::UserKey,
    Icon::Tool,
    Icon::Home,
    Icon::Star,
    Icon::Tux,
    Icon::Feather,
    Icon::Apple,
    Icon::Wikipedia,
    Icon::Money,
    Icon::Certificate,
    Icon::Phone,
];

pub fn icon_code(i: &Icon) -> i32 {
    ICONS.iter().position(|x| x == i).map(|p| p as i32).unwrap_or(-1)
}

pub const STANDARD: [&str; 5] = ["Notes", "Password", "Title", "URL", "UserName"];
