package vh;

import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateAction;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import java.util.ArrayList;
import java.util.List;

/** A state that is not the library's. */
final class UserState implements State<Object, Object> {

  private final String name;
  private final List<StateAction<Object, Object>> entry = new ArrayList<>();
  private final List<StateAction<Object, Object>> exit = new ArrayList<>();

  UserState(String name) {
    this.name = name;
  }

  @Override
  public void onEntry(StateEvent<Object> stateEvent, StateMachine<Object, Object> stateMachine) {
    for (StateAction<Object, Object> a : entry) {
      a.execute(stateEvent, stateMachine);
    }
  }

  @Override
  public void onExit(StateEvent<Object> stateEvent, StateMachine<Object, Object> stateMachine) {
    for (StateAction<Object, Object> a : exit) {
      a.execute(stateEvent, stateMachine);
    }
  }

  @SafeVarargs
  @Override
  public final void appendEntryActions(StateAction<Object, Object>... actions) {
    for (StateAction<Object, Object> a : actions) {
      if (a != null) {
        entry.add(a);
      }
    }
  }

  @SafeVarargs
  @Override
  public final void appendExitActions(StateAction<Object, Object>... actions) {
    for (StateAction<Object, Object> a : actions) {
      if (a != null) {
        exit.add(a);
      }
    }
  }

  @Override
  public String getName() {
    return name;
  }

  @Override
  public boolean equals(Object o) {
    return o instanceof UserState && ((UserState) o).name.equals(name);
  }

  @Override
  public int hashCode() {
    return name.hashCode() / 3;
  }

  @Override
  public String toString() {
    return name;
  }
}
