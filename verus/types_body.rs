// Contracts on the tables of module types: ids, channels, categories, parameter block sizes.
//@subst \bpanic!\s*\([^;]*\)(?=\s*[;,}]) => unsupported()
verus! {

/// `panic!`: must be unreachable
#[verifier::external_body]
pub fn unsupported() -> ! requires false { unimplemented!() }

impl ModuleType {
//@fn src/lib.rs impl ModuleType :: try_from_u32
//@ params id
//@  ensures
//@    match known(id) { Some(t) => r == Ok::<ModuleType, Error>(t), None => r is Err },
//@ start
//@    proof { reveal(known); }
//@end
//@fn src/ur20_fbc_mod_tcp.rs impl ModbusParameterRegisterCount for ModuleType :: param_register_count
//@  requires self.block() is Some
//@  ensures self.block() == Some(r)
//@ start
//@    proof { reveal(ModuleType::block); }
//@end
}

impl ModuleCategory {
//@fn src/lib.rs impl From<ModuleType> for ModuleCategory :: from
//@ params val
//@  ensures r == val.category()
//@ start
//@    proof { reveal(ModuleType::category); }
//@end
}

/// different ids stand for different types (C01)
pub proof fn ids_are_distinct(a: u32, b: u32)
    requires known(a) is Some, known(a) == known(b)
    ensures a == b
{ reveal(known); }

} // verus!
