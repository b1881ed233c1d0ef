//! Everything of the real `erreur`, except that the panic handler may be
//! installed many times: one address space hosts many simulated processes.
pub use real_erreur::*;

pub fn install_panic_handler() -> Result<()> {
    Ok(())
}
