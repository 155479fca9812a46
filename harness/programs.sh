# which program decides which property, and how it is built
MAP_PROGRAMS=(rbac marks collect schema allof hooks yamlw options roots deepcp help helpg acgen scaf)
SYNC_PROGRAMS=(crds patch fault)
RACE_PROGRAMS=(conc share)
# the commands that programs run
declare -A COMMANDS_OF=([options]="controller-gen" [help]="controller-gen" [acgen]="controller-gen" [scaf]="type-scaffold")
# the same, but with the order of maps that VERIF_MAP_ORDER names
declare -A OWNED_COMMANDS_OF=([helpg]="helpgen")
program_of() {
  mode=map
  case "$1" in
    C01|C02) prog=rbac;;
    C03|C04) prog=marks;;
    C05|C06) prog=collect;;
    C10) prog=allof;;
    C17) prog=hooks;;
    C14) prog=yamlw;;
    C15) prog=options;;
    C11|C12) mode=sync; prog=crds;;
    C18) mode=sync; prog=patch;;
    C16) mode=sync; prog=fault;;
    C19) mode=race; prog=conc;;
    C20) prog=roots;;
    C22) mode=race; prog=share;;
    C21) prog=deepcp;;
    C23) prog=help;;
    C25) prog=helpg;;
    C26) prog=acgen;;
    C24) prog=scaf;;
    C07|C08|C09|C13) prog=schema;;
    *) return 1;;
  esac
}
