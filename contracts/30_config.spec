// ---- internal/config: reading one configuration entry (C31)
// viper is outside the boundary: what it holds under each key is ghost state.
ghost var vset array[string]bool
ghost var vstr array[string]string
ghost var vbool array[string]bool
ghost var vint array[string]int
ghost var vdur array[string]int

extern viper.IsSet(k)(b)
  ensures b == vset[k]
extern viper.GetString(k)(s)
  ensures s == vstr[k]
extern viper.GetBool(k)(b)
  ensures b == vbool[k]
extern viper.GetInt(k)(n)
  ensures n == vint[k]
extern viper.GetDuration(k)(d)
  ensures d == vdur[k]

// what viper makes of a value of any type (spf13/cast)
pure castS(v any) string
pure castB(v any) bool
pure castI(v any) int
pure castD(v any) int

extern viper.Set(k, v)
  modifies vset, vstr, vbool, vint, vdur
  ensures vset == store(old(vset), k, v != nil)
  ensures vstr == store(old(vstr), k, castS(v)) && vbool == store(old(vbool), k, castB(v))
  ensures vint == store(old(vint), k, castI(v)) && vdur == store(old(vdur), k, castD(v))

// time.ParseDuration
pure pdOk(s string) bool
pure pdVal(s string) int
extern time.ParseDuration(s)(d, err)
  ensures (err == nil) == pdOk(s)
  ensures d == pdVal(s)
  ensures d >= -9223372036854775808 && d <= 9223372036854775807

// defaults, by the type asked for
pure defS(v any) string = typeis(v, string) ? as(v, string) : ""
pure defB(v any) bool = typeis(v, bool) ? as(v, bool) : false
pure defI(v any) int = typeis(v, int) ? as(v, int) : 0
pure defD(v any) int = typeis(v, string) && pdOk(as(v, string)) ? pdVal(as(v, string)) : 0
// the duration configured under a key; a text that is no duration counts as not configured
pure durAt(k string, d int) int = vdur[k] != 0 ? vdur[k] : (vstr[k] == "" ? 0 : (pdOk(vstr[k]) ? pdVal(vstr[k]) : d))

// k carries a value other than the default
pure ovS(k string, d string) bool = vset[k] && vstr[k] != d
pure ovB(k string, d bool) bool = vset[k] && vbool[k] != d
pure ovI(k string, d int) bool = vset[k] && vint[k] != d
pure ovD(k string, d int) bool = vset[k] && durAt(k, d) != d

func config.ViperConfigKey.Get(c)(r)
  def d = defS(c.Default)
  ensures [C31] "the main key first" ovS(c.Key, d) ==> r == vstr[c.Key]
  ensures [C31] "then the first alias" !ovS(c.Key, d) ==> (forall j : int :: 0 <= j && j < len(c.Aliases) && ovS(c.Aliases[j], d) && (forall i : int { c.Aliases[i] } :: 0 <= i && i < j ==> !ovS(c.Aliases[i], d)) ==> r == vstr[c.Aliases[j]])
  ensures [C31] "else the default" !ovS(c.Key, d) && (forall i : int { c.Aliases[i] } :: 0 <= i && i < len(c.Aliases) ==> !ovS(c.Aliases[i], d)) ==> r == d
  modifies nothing
  loop config.getWithFallback:1 invariant 0 <= iter && (forall i : int { c.Aliases[i] } :: 0 <= i && i < iter ==> !ovS(c.Aliases[i], d))

func config.ViperConfigKey.GetBool(c)(r)
  def d = defB(c.Default)
  ensures [C31] "the main key first" ovB(c.Key, d) ==> r == vbool[c.Key]
  ensures [C31] "then the first alias" !ovB(c.Key, d) ==> (forall j : int :: 0 <= j && j < len(c.Aliases) && ovB(c.Aliases[j], d) && (forall i : int { c.Aliases[i] } :: 0 <= i && i < j ==> !ovB(c.Aliases[i], d)) ==> r == vbool[c.Aliases[j]])
  ensures [C31] "else the default" !ovB(c.Key, d) && (forall i : int { c.Aliases[i] } :: 0 <= i && i < len(c.Aliases) ==> !ovB(c.Aliases[i], d)) ==> r == d
  modifies nothing
  loop config.getWithFallback:1 invariant 0 <= iter && (forall i : int { c.Aliases[i] } :: 0 <= i && i < iter ==> !ovB(c.Aliases[i], d))

func config.ViperConfigKey.GetInt(c)(r)
  def d = defI(c.Default)
  ensures [C31] "the main key first" ovI(c.Key, d) ==> r == vint[c.Key]
  ensures [C31] "then the first alias" !ovI(c.Key, d) ==> (forall j : int :: 0 <= j && j < len(c.Aliases) && ovI(c.Aliases[j], d) && (forall i : int { c.Aliases[i] } :: 0 <= i && i < j ==> !ovI(c.Aliases[i], d)) ==> r == vint[c.Aliases[j]])
  ensures [C31] "else the default" !ovI(c.Key, d) && (forall i : int { c.Aliases[i] } :: 0 <= i && i < len(c.Aliases) ==> !ovI(c.Aliases[i], d)) ==> r == d
  modifies nothing
  loop config.getWithFallback:1 invariant 0 <= iter && (forall i : int { c.Aliases[i] } :: 0 <= i && i < iter ==> !ovI(c.Aliases[i], d))

func config.ViperConfigKey.GetDuration(c)(r)
  def d = defD(c.Default)
  ensures [C31] "the main key first" ovD(c.Key, d) ==> r == durAt(c.Key, d)
  ensures [C31] "then the first alias" !ovD(c.Key, d) ==> (forall j : int :: 0 <= j && j < len(c.Aliases) && ovD(c.Aliases[j], d) && (forall i : int { c.Aliases[i] } :: 0 <= i && i < j ==> !ovD(c.Aliases[i], d)) ==> r == durAt(c.Aliases[j], d))
  ensures [C31] "else the default" !ovD(c.Key, d) && (forall i : int { c.Aliases[i] } :: 0 <= i && i < len(c.Aliases) ==> !ovD(c.Aliases[i], d)) ==> r == d
  modifies nothing
  loop config.getWithFallback:1 invariant 0 <= iter && (forall i : int { c.Aliases[i] } :: 0 <= i && i < iter ==> !ovD(c.Aliases[i], d))

// setting an entry writes the main key and every alias, nothing else
func config.ViperConfigKey.Set(c, value)
  modifies vset, vstr, vbool, vint, vdur
  ensures [C31] "main key set" vset[c.Key] == (value != nil) && vstr[c.Key] == castS(value) && vbool[c.Key] == castB(value) && vint[c.Key] == castI(value) && vdur[c.Key] == castD(value)
  ensures [C31] "aliases set" forall i : int { c.Aliases[i] } :: 0 <= i && i < len(c.Aliases) ==> vset[c.Aliases[i]] == (value != nil) && vstr[c.Aliases[i]] == castS(value) && vbool[c.Aliases[i]] == castB(value) && vint[c.Aliases[i]] == castI(value) && vdur[c.Aliases[i]] == castD(value)
  ensures [C31] "no other key" forall k : string { vstr[k] } { vset[k] } { vbool[k] } { vint[k] } { vdur[k] } :: k != c.Key && (forall i : int { c.Aliases[i] } :: 0 <= i && i < len(c.Aliases) ==> c.Aliases[i] != k) ==> vset[k] == old(vset)[k] && vstr[k] == old(vstr)[k] && vbool[k] == old(vbool)[k] && vint[k] == old(vint)[k] && vdur[k] == old(vdur)[k]
  loop 1 invariant iter <= len(c.Aliases)
  loop 1 invariant vset[c.Key] == (value != nil) && vstr[c.Key] == castS(value) && vbool[c.Key] == castB(value) && vint[c.Key] == castI(value) && vdur[c.Key] == castD(value)
  loop 1 invariant forall i : int { c.Aliases[i] } :: 0 <= i && i < iter ==> vset[c.Aliases[i]] == (value != nil) && vstr[c.Aliases[i]] == castS(value) && vbool[c.Aliases[i]] == castB(value) && vint[c.Aliases[i]] == castI(value) && vdur[c.Aliases[i]] == castD(value)
  loop 1 invariant forall k : string { vstr[k] } { vset[k] } { vbool[k] } { vint[k] } { vdur[k] } :: k != c.Key && (forall i : int { c.Aliases[i] } :: 0 <= i && i < iter ==> c.Aliases[i] != k) ==> vset[k] == old(vset)[k] && vstr[k] == old(vstr)[k] && vbool[k] == old(vbool)[k] && vint[k] == old(vint)[k] && vdur[k] == old(vdur)[k]

// Create registers the entry; Configure gives every registered key and alias its default
func config.Create(key)(r)
  modifies config.defaultConfigs, config.defaultConfigs[*]
  ensures [C31] "returns the entry" r == key
  ensures [C31] "registers the entry" len(config.defaultConfigs) == old(len(config.defaultConfigs)) + 1 && config.defaultConfigs[old(len(config.defaultConfigs))] == key
  ensures [C31] "keeps the others" forall i : int { config.defaultConfigs[i] } :: 0 <= i && i < old(len(config.defaultConfigs)) ==> config.defaultConfigs[i] == old(config.defaultConfigs)[i]

// the default served under each key (the last registration wins, as in viper)
ghost var vdflt array[string]any
ghost var vreset int

extern viper.Reset()
  modifies vdflt, vreset, vset, vstr, vbool, vint, vdur
  ensures vreset == old(vreset) + 1
extern viper.SetDefault(k, v)
  modifies vdflt, vset, vstr, vbool, vint, vdur
  ensures vdflt == store(old(vdflt), k, v)
extern viper.SetEnvKeyReplacer(r)
extern viper.SetEnvPrefix(s)
extern viper.AutomaticEnv()

pure vk(e config.ConfigKey) *config.ViperConfigKey = as(e, *config.ViperConfigKey)
iface config.ConfigKey.GetKey(recv)(k)
  ensures typeis(recv, *config.ViperConfigKey) ==> k == vk(recv).Key
iface config.ConfigKey.GetDefault(recv)(d)
  ensures typeis(recv, *config.ViperConfigKey) ==> d == vk(recv).Default
iface config.ConfigKey.GetAliases(recv)(a)
  ensures typeis(recv, *config.ViperConfigKey) ==> a == vk(recv).Aliases

// the names of different entries differ (owner: whose name it is)
pure owner(k string) int
pure served(d array[string]any, e config.ConfigKey) bool = d[vk(e).Key] == vk(e).Default && (forall a : int { vk(e).Aliases[a] } :: 0 <= a && a < len(vk(e).Aliases) ==> d[vk(e).Aliases[a]] == vk(e).Default)

func config.Configure(reset)
  requires forall i : int { config.defaultConfigs[i] } :: 0 <= i && i < len(config.defaultConfigs) ==> typeis(config.defaultConfigs[i], *config.ViperConfigKey) && owner(vk(config.defaultConfigs[i]).Key) == i && (forall a : int { vk(config.defaultConfigs[i]).Aliases[a] } :: 0 <= a && a < len(vk(config.defaultConfigs[i]).Aliases) ==> owner(vk(config.defaultConfigs[i]).Aliases[a]) == i)
  modifies config.configured, vdflt, vreset, vset, vstr, vbool, vint, vdur
  def dc = config.defaultConfigs
  ensures [C31] "configured once" old(config.configured) && len(reset) == 0 ==> vreset == old(vreset) && vdflt == old(vdflt) && vset == old(vset) && vstr == old(vstr) && vbool == old(vbool) && vint == old(vint) && vdur == old(vdur)
  ensures [C31] "configured" config.configured
  ensures [C31] "every key and alias serves its default" !(old(config.configured) && len(reset) == 0) ==> (forall i : int { dc[i] } :: 0 <= i && i < len(dc) ==> served(vdflt, dc[i]))
  loop 1 invariant iter <= len(dc) && (forall i : int { dc[i] } :: 0 <= i && i < iter ==> served(vdflt, dc[i]))
  loop 2 invariant outer < len(dc) && (forall i : int { dc[i] } :: 0 <= i && i < outer ==> served(vdflt, dc[i]))
  loop 2 invariant vdflt[vk(dc[outer]).Key] == vk(dc[outer]).Default && iter <= len(vk(dc[outer]).Aliases) && (forall a : int { vk(dc[outer]).Aliases[a] } :: 0 <= a && a < iter ==> vdflt[vk(dc[outer]).Aliases[a]] == vk(dc[outer]).Default)
