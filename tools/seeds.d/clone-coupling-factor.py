prop = "P04"
needs = "a clone of a robot with coupled joints whose coupling factor is not 1, moved through the coupling joint"
breaks = "clones couple their joints with factor 1"
edits = [("VirtualRobot/Nodes/RobotNode.cpp", "result->propagateJointValue(it->first, it->second);", "result->propagateJointValue(it->first);")]
demo = r'''
#include <VirtualRobot/Robot.h>
#include <VirtualRobot/XML/RobotIO.h>
#include <iostream>
using namespace VirtualRobot;
int main()
{
    RobotPtr r = RobotIO::createRobotFromString("<Robot Type='r' RootNode='a'><RobotNode name='a'><Joint type='revolute'><PropagateJointValue name='b' factor='0.5'/></Joint><Child name='b'/></RobotNode><RobotNode name='b'><Joint type='revolute'/></RobotNode></Robot>");
    RobotPtr c = r->clone("c");
    r->getRobotNode("a")->setJointValue(1.0f);
    c->getRobotNode("a")->setJointValue(1.0f);
    std::cout << r->getRobotNode("b")->getJointValue() << " " << c->getRobotNode("b")->getJointValue() << std::endl;
    return std::abs(r->getRobotNode("b")->getJointValue() - c->getRobotNode("b")->getJointValue()) < 1e-5 ? 0 : 1;
}
'''
