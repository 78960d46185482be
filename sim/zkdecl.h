/* Declarations of the Arcus additions to the ZooKeeper C client that apt's headers lack. */
struct _zhandle;
extern void zoo_forward_logs_to_syslog(const char*, int);
extern int zookeeper_change_ensemble(struct _zhandle*, const char*);
extern int zookeeper_get_ensemble_string(struct _zhandle*, char*, int);
extern const char* zoo_version_str(void);
