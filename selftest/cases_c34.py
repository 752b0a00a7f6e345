GX='ripsrc/gitexec/gitexec.go'; PR='ripsrc/history3/process/process.go'; CM='ripsrc/commitmeta/commitmeta.go'; PG='ripsrc/parentsgraph/parents.go'; BL='ripsrc/gitblame2/gitblame.go'
P='C15 C16 C34'
for k in ['color.diff=false','diff.context=3','diff.dstPrefix=b/','diff.noprefix=false','diff.renames=true','diff.submodule=short','diff.suppressBlankEmpty=false','i18n.logOutputEncoding=UTF-8','log.decorate=false','log.diffMerges=separate','log.showRoot=true','log.showSignature=false']:
    bug('c34-no-'+k.split('=')[0],'C34',GX,('\t\t"-c", "%s",\n'%k,''))
bug('c34-context0','C34',GX,('diff.context=3','diff.context=0'))
bug('c34-copies','C34',GX,('diff.renames=true','diff.renames=copies'))
bug('c34-graph','C34',PG,('append(gitexec.LogSettings(),\n\t\t"log"','append([]string{},\n\t\t"log"'))
bug('c34-textconv','C34',PR,('\t\t"--no-textconv",\n',''))
bug('c34-textconv-blame','C34',BL,('\t\t"--no-textconv",\n',''))
bug('c34-blame-ignore','C34',BL,('\t\t"--ignore-revs-file=",\n',''))
bug('c34-late','C34',PR,('args := append(gitexec.LogSettings(),\n\t\t"-c", "core','args := append([]string{},\n\t\t"-c", "core'))
bug('c34-U0','C34',PR,('\t\t"-m",\n','\t\t"-m",\n\t\t"-U0",\n'))
bug('c34-cond','C34',CM,('args := append(gitexec.LogSettings(),','settings := gitexec.LogSettings()\n\tif s.opts.CommitFromIncl != "" {\n\t\tsettings = nil\n\t}\n\targs := append(settings,'))
ok('ok-c34-flags',P,GX,('\t\t"-c", "log.showSignature=false",\n',''),(PR,'\t\t"-m",\n','\t\t"-m",\n\t\t"--no-show-signature",\n'),(CM,'\t\t"--raw",\n','\t\t"--raw",\n\t\t"--no-show-signature",\n'),(PG,'\t\t"-m",\n','\t\t"-m",\n\t\t"--no-show-signature",\n'))
ok('ok-c34-flags2',P,PR,('\t\t"-m",\n','\t\t"--diff-merges=separate",\n\t\t"--no-color",\n\t\t"-U5",\n\t\t"--no-decorate",\n'),(GX,'\t\t"-c", "diff.context=3",\n',''))
ok('ok-c34-order',P,GX,('\t\t"-c", "color.diff=false",\n\t\t"-c", "diff.context=3",\n','\t\t"-c", "diff.context=3",\n\t\t"-c", "color.diff=never",\n'))
ok('ok-c34-var',P,GX,('// LogSettings','var logSettings = []string{"-c", "color.diff=false", "-c", "diff.context=3"}\n\n// LogSettings'),('\treturn []string{\n\t\t"-c", "color.diff=false",\n\t\t"-c", "diff.context=3",\n','\treturn []string{\n'),('\t\t"-c", "log.showSignature=false",\n\t}','\t\t"-c", "log.showSignature=false",\n\t\tlogSettings[0], logSettings[1], logSettings[2], logSettings[3],\n\t}'))
ok('ok-c34-inline',P,PG,('args := append(gitexec.LogSettings(),\n','args := gitexec.LogSettings()\n\targs = append(args,\n'))
ok('ok-c34-var3',P,GX,('func LogSettings() []string {\n\treturn []string{','var logSettings = []string{'),('log.showSignature=false",\n\t}\n}','log.showSignature=false",\n}'),(PR,'gitexec.LogSettings()','gitexec.GetSettings()'),(CM,'gitexec.LogSettings()','gitexec.GetSettings()'),(PG,'gitexec.LogSettings()','gitexec.GetSettings()'),(GX,'// LogS','func GetSettings() (res []string) {\n\tfor _, s := range logSettings {\n\t\tres = append(res, s)\n\t}\n\treturn\n}\n\n// LogS'))
