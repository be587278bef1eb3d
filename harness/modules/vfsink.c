/* Sink instance: every message received is appended in network format to a file, one record per message. */
#define _GNU_SOURCE
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdlib.h>
#include "log.h"
#include "allocator.h"
#include "poll_helper.h"
#include "instances.h"
#include "instance_config.h"
#include "threads.h"
#include "message_broker.h"
#include "event/event.h"
#include "messages/msg_msg.h"
#include "messages/msg_checksum.h"
#include "messages/msg.h"
#include "message_holder/message_holder.h"
#include "message_holder/message_holder_struct.h"

struct sink { int fd; unsigned delay_us; };

static int poll_cb(RRR_MODULE_POLL_CALLBACK_SIGNATURE) {
	struct rrr_instance_runtime_data *thread_data = arg;
	struct sink *s = thread_data->private_data;
	struct rrr_msg_msg *m = entry->message;
	size_t n = MSG_TOTAL_SIZE(m);
	struct rrr_msg_msg *c = malloc(n);
	memcpy(c, m, n);
	rrr_msg_msg_prepare_for_network(c);
	rrr_msg_checksum_and_to_network_endian((struct rrr_msg *) c);
	size_t done = 0;
	while (done < n) { ssize_t w = write(s->fd, (char *) c + done, n - done); if (w <= 0) break; done += (size_t) w; }
	free(c);
	rrr_msg_holder_unlock(entry);
	if (s->delay_us) usleep(s->delay_us);
	return 0;
}
static int data_available(RRR_EVENT_FUNCTION_ARGS) {
	struct rrr_thread *thread = arg;
	struct rrr_instance_runtime_data *thread_data = thread->private_data;
	return rrr_poll_do_poll_delete(amount, thread_data, poll_cb);
}
static int periodic(void *arg) { return rrr_thread_signal_encourage_stop_check_and_update_watchdog_timer_void(arg); }
static void *entry(struct rrr_thread *thread) {
	struct rrr_instance_runtime_data *thread_data = thread->private_data;
	struct sink *s = thread_data->private_data = thread_data->private_memory;
	memset(s, 0, sizeof(*s));
	char *path = NULL; rrr_setting_uint delay = 0;
	rrr_thread_start_condition_helper_nofork(thread);
	struct rrr_instance_config_data *config = thread_data->init_data.instance_config;
	if (rrr_instance_config_get_string_noconvert(&path, config, "vfsink_file") != 0) abort();
	if (rrr_instance_config_read_unsigned_integer(&delay, config, "vfsink_delay_us") == 0) s->delay_us = (unsigned) delay;
	if ((s->fd = open(path, O_WRONLY|O_CREAT|O_APPEND|O_CLOEXEC, 0600)) < 0) abort();
	rrr_free(path);
	rrr_event_dispatch(INSTANCE_D_EVENTS(thread_data), 100 * 1000, periodic, thread);
	close(s->fd);
	return NULL;
}
static struct rrr_module_operations module_operations = { NULL, entry, NULL };
static struct rrr_instance_event_functions event_functions = { data_available };
__attribute__((constructor)) void load(void) { }
void init(struct rrr_instance_module_data *data) {
	data->private_data = NULL;
	data->module_name = "vfsink";
	data->type = RRR_MODULE_TYPE_PROCESSOR;
	data->operations = module_operations;
	data->event_functions = event_functions;
}
void unload(void) { }
