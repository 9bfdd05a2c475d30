// Package viper is a stand-in for github.com/spf13/viper in the symbolic
// executor: there is no configuration file. The native replay uses the real
// package.
package viper

type ConfigFileNotFoundError struct{ name, locations string }

func (e ConfigFileNotFoundError) Error() string {
	return "Config File \"" + e.name + "\" Not Found in \"" + e.locations + "\""
}

type Viper struct {
	name  string
	paths []string
}

func New() *Viper { return &Viper{} }

func (v *Viper) SetConfigName(s string)         { v.name = s }
func (v *Viper) SetConfigType(s string)         {}
func (v *Viper) SetEnvPrefix(s string)          {}
func (v *Viper) AutomaticEnv()                  {}
func (v *Viper) SetDefault(k string, x any)     {}
func (v *Viper) AddConfigPath(s string)         { v.paths = append(v.paths, s) }
func (v *Viper) ConfigFileUsed() string         { return "" }
func (v *Viper) GetBool(string) bool            { return false }
func (v *Viper) GetString(string) string        { return "" }
func (v *Viper) GetInt(string) int              { return 0 }
func (v *Viper) IsSet(string) bool              { return false }
func (v *Viper) GetStringSlice(string) []string { return nil }
func (v *Viper) ReadInConfig() error {
	l := "["
	for i, p := range v.paths {
		if i > 0 {
			l += " "
		}
		l += p
	}
	return ConfigFileNotFoundError{v.name, l + "]"}
}

var v = New()

func SetConfigName(s string)         { v.SetConfigName(s) }
func SetConfigType(s string)         {}
func SetEnvPrefix(s string)          {}
func AutomaticEnv()                  {}
func SetDefault(k string, x any)     {}
func AddConfigPath(s string)         { v.AddConfigPath(s) }
func ConfigFileUsed() string         { return "" }
func GetBool(string) bool            { return false }
func GetString(string) string        { return "" }
func GetInt(string) int              { return 0 }
func IsSet(string) bool              { return false }
func GetStringSlice(string) []string { return nil }
func ReadInConfig() error            { return v.ReadInConfig() }
func GetViper() *Viper               { return v }
