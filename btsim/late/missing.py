import no_such_module_anywhere
