//! C02 product catalogue: channel counts, categories

use crate::nd;
use crate::spec::MODULES;
use ur20::ModuleCategory;

harnesses! {
    #[kani::unwind(65)]
    fn c02_channels() {
        let k = nd::upto(62);
        assert!(MODULES[k].0.channel_count() == MODULES[k].3, "channel count");
    }

    #[kani::unwind(65)]
    fn c02_category() {
        let k = nd::upto(62);
        let c: ModuleCategory = MODULES[k].0.clone().into();
        assert!(c == MODULES[k].4, "category");
    }
}
