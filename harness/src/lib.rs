pub mod env;
pub mod setup;
pub mod stubs;
pub mod sym;

macro_rules! entries {
    ($($m:ident { $($f:ident)* })*) => {
        $(pub mod $m;)*
        /// a harness by name
        pub fn entry(name: &str) -> Option<fn()> {
            match name {
                $($(stringify!($f) => Some($m::$f),)*)*
                _ => None,
            }
        }
    };
}
entries! {
    whole { c31_route c31_route_two c31_coin_route c31_pool c31_migrate c31_told c31_limits }
    assets { c27_equal c27_raw c27_self c27_stored c27_spelled c27_paid c27_held c27_pair c27_namesake c27_foreign }
    factory { c14 c15 c15_names c16 c16_names c17 c17_many c17_all c18 c29_factory c29_pair c29_router }
    router { c19_one c19_two c19_three c19_three_all c19_options c21_messages c21_assert c20 c22_short c22_two c22_three c22_long }
    wide { c25_linear c25_product c25_convert c26_uint c26_decimal c26_narrow c26_short c26_short_int c26_short_six c26_long c26_long_int c26_message }
    pairs { c28_new c28_pool }
    tokens { c23_name c23_symbol c23_symbols c23_decimals c23_supply c24_held c24_allowed c24_allow }
    t0 { t_basic t_conc t_swap t_text }
    liq { c05 c06 c07 c08 c08_declared c09 c09_foreign c10_deposit c10_swap c11_deposit c11_withdraw c11_swap c30_swap c30_withdraw c30_deposit }
    swaps { c01 c02 c03 c04 c04_foreign c12 c12_formula c13 }
}
