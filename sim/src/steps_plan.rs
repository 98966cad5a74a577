//! The scheduler's decisions, as data.

/// After `calls` whole calls and then `steps` instructions inside calls (0: at the next call
/// boundary), pass the token on, `to` places further among those who can run.
#[derive(Clone, Copy, Debug, Default)]
pub struct Decision {
    pub calls: u8,
    pub steps: u32,
    pub to: u8,
}

