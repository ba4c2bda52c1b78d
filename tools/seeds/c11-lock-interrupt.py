PROP='C11'
NEEDS='a run waiting for the configuration lock of another run that is interrupted by SIGINT'
BREAKS='the interrupted run removes the lock of the run that is working, so that a third one may start'
EDITS=[('src/crashmail/crashmail.c','''	if(!(done_lockconfig=LockConfig(cfg)))
''','''   done_lockconfig=TRUE;
   strcpy(config.filename,cfg);

	if(!LockConfig(cfg))
''')]
DEMO='''
import signal,time
CFG=HEAD+"""AKA 1:1/1
NODE 1:1/10 "" ""
AREA "TEST" 1:1/1 JAM "areas/test"
EXPORT 1:1/10
"""
with W(CFG) as w:
    w.write('cm.cfg.busy','')
    p=subprocess.Popen(['stdbuf','-oL',os.path.join(BIN,'crashmail'),'SETTINGS','cm.cfg','TOSS'],cwd=w.root,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
    p.stdout.readline(); time.sleep(0.3); p.send_signal(signal.SIGINT)
    try: p.wait(40)
    except subprocess.TimeoutExpired: p.kill(); p.wait()
    check(w.exists('cm.cfg.busy'),'the lock of the other run is gone')
'''
